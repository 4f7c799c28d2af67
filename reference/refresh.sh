#!/bin/bash
# Freeze /repo's committed ebi library as the reference the compatibility checks compare with.
# Run only on purpose, after a repair in /repo; no check runs this.
cd "$(dirname "$0")" || exit 1
rm -rf ./ebi-ref/src
mkdir -p ebi-ref
git -C /repo archive HEAD ebi/src | tar -x -C ebi-ref --strip-components=1
rm -f ebi-ref/src/main.rs
git -C /repo show HEAD:ebi/Cargo.toml | sed -e 's/^name = "ebi"$/name = "ebi-ref"/' \
  -e 's#path = "../alp-binding"#path = "/repo/alp-binding"#' -e '/^cuda-binding/d' \
  -e '/^\[dev-dependencies\]/,/^\[features\]/{/^\[features\]/!d}' -e '/^cuda = /d' -e '/^\[\[bench\]\]/,$d' > ebi-ref/Cargo.toml
cat >> ebi-ref/Cargo.toml <<'T'
[lib]
name = "ebi_ref"
doctest = false
bench = false
T
git -C /repo rev-parse HEAD > ebi-ref/COMMIT
