#!/bin/bash
# regenerate mod.rs from the files present
cd /verif/harness/src/props
{ for f in c*.rs; do echo "mod ${f%.rs};"; done; echo; echo 'pub static ALL: &[&crate::fw::Prop] = &['; for f in c*.rs; do echo "    &${f%.rs}::PROP,"; done; echo '];'; } > mod.rs
