#!/usr/bin/env python3
"""development helper: register the harness modules in main.rs and Cargo.toml"""
import re,sys
mods=sys.argv[1:]
needs=dict(components='"spectra"', polar='"spectra"', forecasts='"records"', feeds='"records"', stations='"records"', readings='"records", "units"')
m='''#![allow(warnings)]
#[macro_use]
mod irs;
'''+''.join(f'#[cfg(feature = "{x}")]\nmod {x};\n' for x in mods)
p='/verif/harness/src/main.rs'; s=open(p).read()
tail=s[s.index('fn main()'):]
t='fn table() -> Vec<(&\'static str, extern "C" fn())> {\n    let mut t: Vec<(&\'static str, extern "C" fn())> = vec![];\n'+''.join(f'    #[cfg(feature = "{x}")]\n    t.extend_from_slice({x}::TABLE);\n' for x in mods)+'    t\n}\n\n'
open(p,'w').write(m+'\n'+t+tail)
p='/verif/harness/Cargo.toml'; s=open(p).read()
s=re.sub(r'\[features\]\n(.*\n)*?\n','[features]\n'+''.join(f'{x} = [{needs.get(x,"")}]\n' for x in mods)+'\n',s)
open(p,'w').write(s)
