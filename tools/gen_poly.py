#!/usr/bin/env python3
"""Writes h/core/src/poly_gen.rs: drives every accessor of the fork-spanning types (ethereum_consensus::types).
The accessor table was taken from the public interface; what each must answer comes from schema.rs at run time."""
import os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["Phase0", "Altair", "Bellatrix", "Capella", "Deneb"]
EXE = ALL[2:]
BLK = "slot proposer_index parent_root state_root".split()
OPS = "randao_reveal eth1_data graffiti proposer_slashings attester_slashings attestations deposits voluntary_exits".split()
PAY = "parent_hash fee_recipient state_root receipts_root logs_bloom prev_randao block_number gas_limit gas_used timestamp extra_data base_fee_per_gas block_hash".split()
STATE = """genesis_time genesis_validators_root slot fork latest_block_header block_roots state_roots historical_roots eth1_data eth1_data_votes
eth1_deposit_index validators balances randao_mixes slashings justification_bits previous_justified_checkpoint current_justified_checkpoint finalized_checkpoint""".split()
STATE_O = """previous_epoch_attestations current_epoch_attestations previous_epoch_participation current_epoch_participation inactivity_scores
current_sync_committee next_sync_committee next_withdrawal_index next_withdrawal_validator_index historical_summaries""".split()
p = lambda l: [(x, "p", None) for x in l]
o = lambda l: [(x, "o", None) for x in l]
# name, variants, fields, has Ref/RefMut
T = [
 ("BeaconBlock", ALL, p(BLK)+[("body", "p", "BeaconBlockBody")], True),
 ("BeaconBlockBody", ALL, p(OPS)+o(["sync_aggregate"])+[("execution_payload", "o", "ExecutionPayload")]+o(["bls_to_execution_changes", "blob_kzg_commitments"]), True),
 ("BeaconState", ALL, p(STATE)+o(STATE_O)+[("latest_execution_payload_header", "o", "ExecutionPayloadHeader")], True),
 ("BlindedBeaconBlock", EXE, p(BLK)+[("body", "p", "BlindedBeaconBlockBody")], True),
 ("BlindedBeaconBlockBody", EXE, p(OPS+["sync_aggregate"])+[("execution_payload_header", "p", "ExecutionPayloadHeader")]+o(["bls_to_execution_changes", "blob_kzg_commitments"]), True),
 ("ExecutionPayload", EXE, p(PAY+["transactions"])+o(["withdrawals", "blob_gas_used", "excess_blob_gas"]), True),
 ("ExecutionPayloadHeader", EXE, p(PAY+["transactions_root"])+o(["withdrawals_root", "blob_gas_used", "excess_blob_gas"]), True),
 ("SignedBeaconBlock", ALL, p(["signature"])+[("message", "p", "BeaconBlock")], False),
 ("SignedBlindedBeaconBlock", EXE, p(["signature"])+[("message", "p", "BlindedBeaconBlock")], False),
]
VAR = {t[0]: t[1] for t in T}
src = open("/repo/ethereum-consensus/src/types/presets/mainnet.rs").read()
cons = {m.group(1): re.sub(r"\s+", " ", m.group(2)) for m in re.finditer(r"pub type (\w+) =\s*types::\w+<([^>]*)>;", src)}
use = re.search(r"use crate::\{(.*?)\n\};", src, re.S).group(1)
out = ["// Written by tools/gen_poly.py.", "use crate::{poly::*, repo::{dec, enc}, schema::Fork};", "use ethereum_consensus::{ssz::prelude::HashTreeRoot, types};", ""]
def reads(name, ty, fields):
    out.append(f"    fn read_{name}(x: &{ty}) -> Vec<Seen> {{\n        vec![")
    for f, k, n in fields:
        ver = "Some(fork_of(y.version()))" if n else "None"
        if k == "p": out.append(f"            {{ let y = x.{f}(); Some((rt(y.hash_tree_root()), {ver})) }},")
        else: out.append(f"            x.{f}().map(|y| (rt(y.hash_tree_root()), {ver})),")
    out.append("        ]\n    }")
def put(n):
    return "match y { " + ", ".join(f"types::{n}RefMut::{v}(y) => *y = must(dec(b))" for v in VAR[n]) + " }"
def writes(name, ty, fields):
    out.append(f"    fn write_{name}(x: &mut {ty}, k: usize, b: &[u8]) -> bool {{\n        match k {{")
    for i, (f, k, n) in enumerate(fields):
        body = put(n) if n else "*y = must(dec(b))"
        if k == "p": out.append(f"            {i} => {{ let y = x.{f}_mut(); {body}; true }}")
        else: out.append(f"            {i} => match x.{f}_mut() {{ Some(y) => {{ {body}; true }}, None => false }},")
    out.append("            _ => unreachable!(),\n        }\n    }")
def inner(name, ty, vs, mut):
    m, suf = ("&mut ", "_mut") if mut else ("&", "")
    out.append(f"    fn inner_{name}(x: {m}{ty}) -> Vec<(Fork, Option<Vec<u8>>)> {{\n        vec![" +
      ", ".join(f"(Fork::{v}, x.{v.lower()}{suf}().map(|y| enc(&*y)))" for v in vs) + "]\n    }")
for pre in ["mainnet", "minimal"]:
    out.append(f"pub mod {pre} {{\n    use super::*;")
    out.append("    #[allow(unused_imports)]\n    use ethereum_consensus::{" + re.sub(r"\s+", " ", use.replace("mainnet", pre)).replace("types,", "") + "};")
    for name, vs, fields, refs in T:
        low = name.lower(); E = f"types::{pre}::{name}"
        reads(low, E, fields); writes(low, E, fields); inner(low, E, vs, False); inner(low+"_m", E, vs, True)
        if refs:
            R, M = f"types::{name}Ref<'_, {cons[name]}>", f"types::{name}RefMut<'_, {cons[name]}>"
            reads(low+"_ref", R, fields); reads(low+"_rm", M, fields); writes(low+"_rm", M, fields)
            inner(low+"_ref", R, vs, False); inner(low+"_rm", M, vs, False); inner(low+"_rm_m", M, vs, True)
        out.append(f"    fn wrap_{low}(f: Fork, b: &[u8]) -> {E} {{\n        match f {{")
        for v in vs: out.append(f"            Fork::{v} => {E}::{v}(must(dec(b))),")
        out.append("            _ => unreachable!(),\n        }\n    }")
        out.append(f"    pub fn run_{low}(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {{\n        let e = wrap_{low}(f, b);\n        let mut rep = Report::default();")
        out.append(f"""        rep.views.push(View {{ what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_{low}(&e), inner: inner_{low}(&e), inner_mut: Some(inner_{low}_m(&mut e.clone())) }});
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<{E}>(rep.json.clone()).ok(), serde_json::from_str::<{E}>(&rep.text).ok(), serde_json::from_reader::<_, {E}>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {{
            let mut x = e.clone();
            rep.writes.push(("value", k, write_{low}(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }}""")
        if refs:
            out.append("        match f {")
            for v in vs:
                I = f"ethereum_consensus::{v.lower()}::{pre}::{name}"
                out.append(f"""            Fork::{v} => {{
                let mut i: {I} = must(dec(b));
                {{
                    let x: {R} = From::from(&i);
                    rep.views.push(View {{ what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_{low}_ref(&x), inner: inner_{low}_ref(&x), inner_mut: None }});
                }}
                {{
                    let mut x: {M} = From::from(&mut i);
                    rep.views.push(View {{ what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_{low}_rm(&x), inner: inner_{low}_rm(&x), inner_mut: Some(inner_{low}_rm_m(&mut x)) }});
                }}
                for (k, nb) in new.iter().enumerate() {{
                    let mut j = i.clone();
                    let w = {{
                        let mut x: {M} = From::from(&mut j);
                        write_{low}_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    }};
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }}
            }}""")
            out.append("            _ => unreachable!(),\n        }")
        out.append("        rep\n    }")
        out.append(f"    pub fn doc_{low}(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {{\n        serde_json::from_value::<{E}>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))\n    }}")
    out.append("}")
out.append("pub fn all() -> Vec<Poly> {\n    use crate::schema::Preset;\n    vec![")
for pre in ["mainnet", "minimal"]:
    for name, vs, fields, refs in T:
        out.append(f'        Poly {{ name: "{name}", preset: Preset::{pre.capitalize()}, forks: &[{", ".join("Fork::"+v for v in vs)}], fields: &[{", ".join(chr(34)+f[0]+chr(34) for f in fields)}], run: {pre}::run_{name.lower()}, doc: {pre}::doc_{name.lower()} }},')
out.append("    ]\n}")
open(os.path.join(here, "h/core/src/poly_gen.rs"), "w").write("\n".join(out) + "\n")
