//! The tables of Adobe Technical Note 5176, Appendices A to C.

/// Appendix A: the standard strings.
const STRINGS: &str = "
.notdef space exclam quotedbl numbersign dollar percent ampersand quoteright parenleft
parenright asterisk plus comma hyphen period slash zero one two
three four five six seven eight nine colon semicolon less
equal greater question at A B C D E F
G H I J K L M N O P
Q R S T U V W X Y Z
bracketleft backslash bracketright asciicircum underscore quoteleft a b c d
e f g h i j k l m n
o p q r s t u v w x
y z braceleft bar braceright asciitilde exclamdown cent sterling fraction
yen florin section currency quotesingle quotedblleft guillemotleft guilsinglleft guilsinglright fi
fl endash dagger daggerdbl periodcentered paragraph bullet quotesinglbase quotedblbase quotedblright
guillemotright ellipsis perthousand questiondown grave acute circumflex tilde macron breve
dotaccent dieresis ring cedilla hungarumlaut ogonek caron emdash AE ordfeminine
Lslash Oslash OE ordmasculine ae dotlessi lslash oslash oe germandbls
onesuperior logicalnot mu trademark Eth onehalf plusminus Thorn onequarter divide
brokenbar degree thorn threequarters twosuperior registered minus eth multiply threesuperior
copyright Aacute Acircumflex Adieresis Agrave Aring Atilde Ccedilla Eacute Ecircumflex
Edieresis Egrave Iacute Icircumflex Idieresis Igrave Ntilde Oacute Ocircumflex Odieresis
Ograve Otilde Scaron Uacute Ucircumflex Udieresis Ugrave Yacute Ydieresis Zcaron
aacute acircumflex adieresis agrave aring atilde ccedilla eacute ecircumflex edieresis
egrave iacute icircumflex idieresis igrave ntilde oacute ocircumflex odieresis ograve
otilde scaron uacute ucircumflex udieresis ugrave yacute ydieresis zcaron exclamsmall
Hungarumlautsmall dollaroldstyle dollarsuperior ampersandsmall Acutesmall parenleftsuperior parenrightsuperior twodotenleader onedotenleader zerooldstyle
oneoldstyle twooldstyle threeoldstyle fouroldstyle fiveoldstyle sixoldstyle sevenoldstyle eightoldstyle nineoldstyle commasuperior
threequartersemdash periodsuperior questionsmall asuperior bsuperior centsuperior dsuperior esuperior isuperior lsuperior
msuperior nsuperior osuperior rsuperior ssuperior tsuperior ff ffi ffl parenleftinferior
parenrightinferior Circumflexsmall hyphensuperior Gravesmall Asmall Bsmall Csmall Dsmall Esmall Fsmall
Gsmall Hsmall Ismall Jsmall Ksmall Lsmall Msmall Nsmall Osmall Psmall
Qsmall Rsmall Ssmall Tsmall Usmall Vsmall Wsmall Xsmall Ysmall Zsmall
colonmonetary onefitted rupiah Tildesmall exclamdownsmall centoldstyle Lslashsmall Scaronsmall Zcaronsmall Dieresissmall
Brevesmall Caronsmall Dotaccentsmall Macronsmall figuredash hypheninferior Ogoneksmall Ringsmall Cedillasmall questiondownsmall
oneeighth threeeighths fiveeighths seveneighths onethird twothirds zerosuperior foursuperior fivesuperior sixsuperior
sevensuperior eightsuperior ninesuperior zeroinferior oneinferior twoinferior threeinferior fourinferior fiveinferior sixinferior
seveninferior eightinferior nineinferior centinferior dollarinferior periodinferior commainferior Agravesmall Aacutesmall Acircumflexsmall
Atildesmall Adieresissmall Aringsmall AEsmall Ccedillasmall Egravesmall Eacutesmall Ecircumflexsmall Edieresissmall Igravesmall
Iacutesmall Icircumflexsmall Idieresissmall Ethsmall Ntildesmall Ogravesmall Oacutesmall Ocircumflexsmall Otildesmall Odieresissmall
OEsmall Oslashsmall Ugravesmall Uacutesmall Ucircumflexsmall Udieresissmall Yacutesmall Thornsmall Ydieresissmall 001.000
001.001 001.002 001.003 Black Bold Book Light Medium Regular Roman
Semibold
";

pub fn strings() -> Vec<&'static str> {
    let list: Vec<_> = STRINGS.split_whitespace().collect();
    assert_eq!(list.len(), 391);
    list
}

/// Appendix B: runs of (first code, last code, first string identifier).
const STANDARD: [(u16, u16, u16); 14] = [
    (32, 126, 1),
    (161, 175, 96),
    (177, 180, 111),
    (182, 189, 115),
    (191, 191, 123),
    (193, 200, 124),
    (202, 203, 132),
    (205, 208, 134),
    (225, 225, 138),
    (227, 227, 139),
    (232, 235, 140),
    (241, 241, 144),
    (245, 245, 145),
    (248, 251, 146),
];

const EXPERT: [(u16, u16, u16); 31] = [
    (32, 32, 1),
    (33, 34, 229),
    (36, 43, 231),
    (44, 46, 13),
    (47, 47, 99),
    (48, 57, 239),
    (58, 59, 27),
    (60, 63, 249),
    (65, 69, 253),
    (73, 73, 258),
    (76, 79, 259),
    (82, 84, 263),
    (86, 86, 266),
    (87, 88, 109),
    (89, 91, 267),
    (93, 126, 270),
    (161, 163, 304),
    (166, 170, 307),
    (172, 172, 312),
    (175, 175, 313),
    (178, 179, 314),
    (182, 184, 316),
    (188, 188, 158),
    (189, 189, 155),
    (190, 190, 163),
    (191, 197, 319),
    (200, 200, 326),
    (201, 201, 150),
    (202, 202, 164),
    (203, 203, 169),
    (204, 255, 327),
];

fn encoding(runs: &[(u16, u16, u16)]) -> Vec<u16> {
    let mut table = vec![0; 256];
    for &(first, last, string) in runs {
        for code in first..=last {
            table[code as usize] = if string == 0 { 0 } else { string + code - first };
        }
    }
    table
}

pub fn standard_encoding() -> Vec<u16> {
    encoding(&STANDARD)
}

pub fn expert_encoding() -> Vec<u16> {
    encoding(&EXPERT)
}

/// Appendix C: runs of string identifiers in glyph order, from glyph 1 on.
const EXPERT_SET: [(u16, u16); 18] = [
    (1, 1),
    (229, 238),
    (13, 15),
    (99, 99),
    (239, 248),
    (27, 28),
    (249, 266),
    (109, 110),
    (267, 318),
    (158, 158),
    (155, 155),
    (163, 163),
    (319, 326),
    (150, 150),
    (164, 164),
    (169, 169),
    (327, 342),
    (343, 378),
];

const EXPERT_SUBSET: [(u16, u16); 24] = [
    (1, 1),
    (231, 232),
    (235, 238),
    (13, 15),
    (99, 99),
    (239, 248),
    (27, 28),
    (249, 251),
    (253, 266),
    (109, 110),
    (267, 270),
    (272, 272),
    (300, 302),
    (305, 305),
    (314, 315),
    (158, 158),
    (155, 155),
    (163, 163),
    (320, 326),
    (150, 150),
    (164, 164),
    (169, 169),
    (327, 342),
    (343, 346),
];

fn set(runs: &[(u16, u16)]) -> Vec<u16> {
    let mut list = vec![0];
    for &(first, last) in runs {
        list.extend(first..=last);
    }
    list
}

pub fn iso_adobe() -> Vec<u16> {
    set(&[(1, 228)])
}

pub fn expert() -> Vec<u16> {
    let list = set(&EXPERT_SET);
    assert_eq!(list.len(), 166);
    list
}

pub fn expert_subset() -> Vec<u16> {
    let list = set(&EXPERT_SUBSET);
    assert_eq!(list.len(), 87);
    list
}
