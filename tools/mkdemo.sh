# demo.sh and its lock file for planted bugs; core.rs when main.rs uses it
for id in "$@"; do cp /verif/tools/demo_tmpl.sh /verif/seeded/$id/demo.sh; cp /verif/sim/Cargo.lock /verif/seeded/$id/Cargo.lock; chmod +x /verif/seeded/$id/demo.sh; grep -q '^mod core' /verif/seeded/$id/main.rs && cp /verif/tools/demo/core.rs /verif/seeded/$id/; done
