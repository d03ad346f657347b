#!/bin/bash
# usage: mkseed.sh ID   (after writing seeded/ID/{patch.diff,demo.rs,meta.json}): standard demo.sh
cat > /verif/seeded/$1/demo.sh <<'EOS'
#!/bin/bash
# run in the repository after the build; compiles demo.rs against the built library
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
L=$PWD/target/debug/deps
built() {
  # the dependencies may be there in several builds: take the one the library was built with
  for nf in $(ls -t $L/libnoisy_float-*.rlib); do for pid in $(ls -t $L/libparticle_id-*.rlib); do for ray in $(ls -t $L/librayon-*.rlib); do
    rustc --edition 2021 "$D/demo.rs" -o "$T/demo" -L dependency=$L --extern cres=$L/libcres.rlib \
      --extern noisy_float=$nf --extern particle_id=$pid --extern rayon=$ray 2> "$T/err" && return 0
  done; done; done
  cat "$T/err"
  return 1
}
built || exit 0
cd "$T" && timeout 120 "$T/demo"
EOS
chmod +x /verif/seeded/$1/demo.sh
