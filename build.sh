# builds the harness; sets VERIF_BIN. Sourced from /verif.
VERIF_BIN="$PWD/harness/target/release/calcu-verif"
if ! (cd harness && cargo build --release --offline --locked >build.log 2>&1); then
  echo "error: the harness does not build against /repo"
  tail -40 harness/build.log
  rm -f harness/build.log
  return 2
fi
rm -f harness/build.log
