export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
