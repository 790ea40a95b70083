cd /verif && quint typecheck spec/history.qnt --out /tmp/ir.json >/dev/null || exit 1
python3 tools/q2rs.py /tmp/ir.json harness/gen/spec.rs.new && { cmp -s harness/gen/spec.rs.new harness/gen/spec.rs || cp harness/gen/spec.rs.new harness/gen/spec.rs; }
. /verif/tools/env.sh; cd /verif/harness && cargo build --offline --profile checked --target-dir /verif/target/main 2>&1 | grep -E "^(error|warning: unused)" -A9
true
