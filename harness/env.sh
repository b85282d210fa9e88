# Build environment: the toolchain and the prebuilt dependencies in /repo/target (ignored by git there).
. /opt/vp/harness/env.sh
mkdir -p "$CARGO_TARGET_DIR/verif"
cp -f /repo/opsqueue/opsqueue_example_database_schema.db "$CARGO_TARGET_DIR/verif/schema.db"
export DATABASE_URL="sqlite://$CARGO_TARGET_DIR/verif/schema.db"
