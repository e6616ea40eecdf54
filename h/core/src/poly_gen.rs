// Written by tools/gen_poly.py.
use crate::{poly::*, repo::{dec, enc}, schema::Fork};
use ethereum_consensus::{ssz::prelude::HashTreeRoot, types};

pub mod mainnet {
    use super::*;
    #[allow(unused_imports)]
    use ethereum_consensus::{ altair::mainnet::SYNC_COMMITTEE_SIZE, bellatrix::mainnet::{ BYTES_PER_LOGS_BLOOM, MAX_BYTES_PER_TRANSACTION, MAX_EXTRA_DATA_BYTES, MAX_TRANSACTIONS_PER_PAYLOAD, }, capella::mainnet::{MAX_BLS_TO_EXECUTION_CHANGES, MAX_WITHDRAWALS_PER_PAYLOAD}, deneb::mainnet::MAX_BLOB_COMMITMENTS_PER_BLOCK, phase0::mainnet::{ EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, ETH1_DATA_VOTES_BOUND, HISTORICAL_ROOTS_LIMIT, MAX_ATTESTATIONS, MAX_ATTESTER_SLASHINGS, MAX_DEPOSITS, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_VOLUNTARY_EXITS, PENDING_ATTESTATIONS_BOUND, SLOTS_PER_HISTORICAL_ROOT, VALIDATOR_REGISTRY_LIMIT, }, };
    fn read_beaconblock(x: &types::mainnet::BeaconBlock) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_beaconblock(x: &mut types::mainnet::BeaconBlock, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            1 => { let y = x.proposer_index_mut(); *y = must(dec(b)); true }
            2 => { let y = x.parent_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.body_mut(); match y { types::BeaconBlockBodyRefMut::Phase0(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Altair(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Bellatrix(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Capella(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_beaconblock(x: &types::mainnet::BeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblock_m(x: &mut types::mainnet::BeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_beaconblock_ref(x: &types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn read_beaconblock_rm(x: &types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_beaconblock_rm(x: &mut types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            1 => { let y = x.proposer_index_mut(); *y = must(dec(b)); true }
            2 => { let y = x.parent_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.body_mut(); match y { types::BeaconBlockBodyRefMut::Phase0(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Altair(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Bellatrix(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Capella(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_beaconblock_ref(x: &types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblock_rm(x: &types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblock_rm_m(x: &mut types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_beaconblock(f: Fork, b: &[u8]) -> types::mainnet::BeaconBlock {
        match f {
            Fork::Phase0 => types::mainnet::BeaconBlock::Phase0(must(dec(b))),
            Fork::Altair => types::mainnet::BeaconBlock::Altair(must(dec(b))),
            Fork::Bellatrix => types::mainnet::BeaconBlock::Bellatrix(must(dec(b))),
            Fork::Capella => types::mainnet::BeaconBlock::Capella(must(dec(b))),
            Fork::Deneb => types::mainnet::BeaconBlock::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_beaconblock(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_beaconblock(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_beaconblock(&e), inner: inner_beaconblock(&e), inner_mut: Some(inner_beaconblock_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::mainnet::BeaconBlock>(rep.json.clone()).ok(), serde_json::from_str::<types::mainnet::BeaconBlock>(&rep.text).ok(), serde_json::from_reader::<_, types::mainnet::BeaconBlock>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_beaconblock(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Phase0 => {
                let mut i: ethereum_consensus::phase0::mainnet::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Altair => {
                let mut i: ethereum_consensus::altair::mainnet::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::mainnet::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::mainnet::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::mainnet::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_beaconblock(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::mainnet::BeaconBlock>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_beaconblockbody(x: &types::mainnet::BeaconBlockBody) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            x.sync_aggregate().map(|y| (rt(y.hash_tree_root()), None)),
            x.execution_payload().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_beaconblockbody(x: &mut types::mainnet::BeaconBlockBody, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.randao_reveal_mut(); *y = must(dec(b)); true }
            1 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            2 => { let y = x.graffiti_mut(); *y = must(dec(b)); true }
            3 => { let y = x.proposer_slashings_mut(); *y = must(dec(b)); true }
            4 => { let y = x.attester_slashings_mut(); *y = must(dec(b)); true }
            5 => { let y = x.attestations_mut(); *y = must(dec(b)); true }
            6 => { let y = x.deposits_mut(); *y = must(dec(b)); true }
            7 => { let y = x.voluntary_exits_mut(); *y = must(dec(b)); true }
            8 => match x.sync_aggregate_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            9 => match x.execution_payload_mut() { Some(y) => { match y { types::ExecutionPayloadRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadRefMut::Deneb(y) => *y = must(dec(b)) }; true }, None => false },
            10 => match x.bls_to_execution_changes_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            11 => match x.blob_kzg_commitments_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_beaconblockbody(x: &types::mainnet::BeaconBlockBody) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblockbody_m(x: &mut types::mainnet::BeaconBlockBody) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_beaconblockbody_ref(x: &types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            x.sync_aggregate().map(|y| (rt(y.hash_tree_root()), None)),
            x.execution_payload().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn read_beaconblockbody_rm(x: &types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            x.sync_aggregate().map(|y| (rt(y.hash_tree_root()), None)),
            x.execution_payload().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_beaconblockbody_rm(x: &mut types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.randao_reveal_mut(); *y = must(dec(b)); true }
            1 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            2 => { let y = x.graffiti_mut(); *y = must(dec(b)); true }
            3 => { let y = x.proposer_slashings_mut(); *y = must(dec(b)); true }
            4 => { let y = x.attester_slashings_mut(); *y = must(dec(b)); true }
            5 => { let y = x.attestations_mut(); *y = must(dec(b)); true }
            6 => { let y = x.deposits_mut(); *y = must(dec(b)); true }
            7 => { let y = x.voluntary_exits_mut(); *y = must(dec(b)); true }
            8 => match x.sync_aggregate_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            9 => match x.execution_payload_mut() { Some(y) => { match y { types::ExecutionPayloadRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadRefMut::Deneb(y) => *y = must(dec(b)) }; true }, None => false },
            10 => match x.bls_to_execution_changes_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            11 => match x.blob_kzg_commitments_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_beaconblockbody_ref(x: &types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblockbody_rm(x: &types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblockbody_rm_m(x: &mut types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_beaconblockbody(f: Fork, b: &[u8]) -> types::mainnet::BeaconBlockBody {
        match f {
            Fork::Phase0 => types::mainnet::BeaconBlockBody::Phase0(must(dec(b))),
            Fork::Altair => types::mainnet::BeaconBlockBody::Altair(must(dec(b))),
            Fork::Bellatrix => types::mainnet::BeaconBlockBody::Bellatrix(must(dec(b))),
            Fork::Capella => types::mainnet::BeaconBlockBody::Capella(must(dec(b))),
            Fork::Deneb => types::mainnet::BeaconBlockBody::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_beaconblockbody(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_beaconblockbody(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_beaconblockbody(&e), inner: inner_beaconblockbody(&e), inner_mut: Some(inner_beaconblockbody_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::mainnet::BeaconBlockBody>(rep.json.clone()).ok(), serde_json::from_str::<types::mainnet::BeaconBlockBody>(&rep.text).ok(), serde_json::from_reader::<_, types::mainnet::BeaconBlockBody>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_beaconblockbody(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Phase0 => {
                let mut i: ethereum_consensus::phase0::mainnet::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Altair => {
                let mut i: ethereum_consensus::altair::mainnet::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::mainnet::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::mainnet::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::mainnet::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_beaconblockbody(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::mainnet::BeaconBlockBody>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_beaconstate(x: &types::mainnet::BeaconState) -> Vec<Seen> {
        vec![
            { let y = x.genesis_time(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.genesis_validators_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fork(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.latest_block_header(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.historical_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data_votes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_deposit_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.validators(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.balances(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.randao_mixes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.justification_bits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.previous_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.current_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.finalized_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            x.previous_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.previous_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.inactivity_scores().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_validator_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.historical_summaries().map(|y| (rt(y.hash_tree_root()), None)),
            x.latest_execution_payload_header().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
        ]
    }
    fn write_beaconstate(x: &mut types::mainnet::BeaconState, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.genesis_time_mut(); *y = must(dec(b)); true }
            1 => { let y = x.genesis_validators_root_mut(); *y = must(dec(b)); true }
            2 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            3 => { let y = x.fork_mut(); *y = must(dec(b)); true }
            4 => { let y = x.latest_block_header_mut(); *y = must(dec(b)); true }
            5 => { let y = x.block_roots_mut(); *y = must(dec(b)); true }
            6 => { let y = x.state_roots_mut(); *y = must(dec(b)); true }
            7 => { let y = x.historical_roots_mut(); *y = must(dec(b)); true }
            8 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            9 => { let y = x.eth1_data_votes_mut(); *y = must(dec(b)); true }
            10 => { let y = x.eth1_deposit_index_mut(); *y = must(dec(b)); true }
            11 => { let y = x.validators_mut(); *y = must(dec(b)); true }
            12 => { let y = x.balances_mut(); *y = must(dec(b)); true }
            13 => { let y = x.randao_mixes_mut(); *y = must(dec(b)); true }
            14 => { let y = x.slashings_mut(); *y = must(dec(b)); true }
            15 => { let y = x.justification_bits_mut(); *y = must(dec(b)); true }
            16 => { let y = x.previous_justified_checkpoint_mut(); *y = must(dec(b)); true }
            17 => { let y = x.current_justified_checkpoint_mut(); *y = must(dec(b)); true }
            18 => { let y = x.finalized_checkpoint_mut(); *y = must(dec(b)); true }
            19 => match x.previous_epoch_attestations_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            20 => match x.current_epoch_attestations_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            21 => match x.previous_epoch_participation_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            22 => match x.current_epoch_participation_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            23 => match x.inactivity_scores_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            24 => match x.current_sync_committee_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            25 => match x.next_sync_committee_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            26 => match x.next_withdrawal_index_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            27 => match x.next_withdrawal_validator_index_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            28 => match x.historical_summaries_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            29 => match x.latest_execution_payload_header_mut() { Some(y) => { match y { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Deneb(y) => *y = must(dec(b)) }; true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_beaconstate(x: &types::mainnet::BeaconState) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconstate_m(x: &mut types::mainnet::BeaconState) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_beaconstate_ref(x: &types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<Seen> {
        vec![
            { let y = x.genesis_time(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.genesis_validators_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fork(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.latest_block_header(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.historical_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data_votes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_deposit_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.validators(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.balances(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.randao_mixes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.justification_bits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.previous_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.current_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.finalized_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            x.previous_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.previous_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.inactivity_scores().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_validator_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.historical_summaries().map(|y| (rt(y.hash_tree_root()), None)),
            x.latest_execution_payload_header().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
        ]
    }
    fn read_beaconstate_rm(x: &types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<Seen> {
        vec![
            { let y = x.genesis_time(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.genesis_validators_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fork(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.latest_block_header(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.historical_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data_votes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_deposit_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.validators(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.balances(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.randao_mixes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.justification_bits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.previous_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.current_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.finalized_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            x.previous_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.previous_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.inactivity_scores().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_validator_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.historical_summaries().map(|y| (rt(y.hash_tree_root()), None)),
            x.latest_execution_payload_header().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
        ]
    }
    fn write_beaconstate_rm(x: &mut types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.genesis_time_mut(); *y = must(dec(b)); true }
            1 => { let y = x.genesis_validators_root_mut(); *y = must(dec(b)); true }
            2 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            3 => { let y = x.fork_mut(); *y = must(dec(b)); true }
            4 => { let y = x.latest_block_header_mut(); *y = must(dec(b)); true }
            5 => { let y = x.block_roots_mut(); *y = must(dec(b)); true }
            6 => { let y = x.state_roots_mut(); *y = must(dec(b)); true }
            7 => { let y = x.historical_roots_mut(); *y = must(dec(b)); true }
            8 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            9 => { let y = x.eth1_data_votes_mut(); *y = must(dec(b)); true }
            10 => { let y = x.eth1_deposit_index_mut(); *y = must(dec(b)); true }
            11 => { let y = x.validators_mut(); *y = must(dec(b)); true }
            12 => { let y = x.balances_mut(); *y = must(dec(b)); true }
            13 => { let y = x.randao_mixes_mut(); *y = must(dec(b)); true }
            14 => { let y = x.slashings_mut(); *y = must(dec(b)); true }
            15 => { let y = x.justification_bits_mut(); *y = must(dec(b)); true }
            16 => { let y = x.previous_justified_checkpoint_mut(); *y = must(dec(b)); true }
            17 => { let y = x.current_justified_checkpoint_mut(); *y = must(dec(b)); true }
            18 => { let y = x.finalized_checkpoint_mut(); *y = must(dec(b)); true }
            19 => match x.previous_epoch_attestations_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            20 => match x.current_epoch_attestations_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            21 => match x.previous_epoch_participation_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            22 => match x.current_epoch_participation_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            23 => match x.inactivity_scores_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            24 => match x.current_sync_committee_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            25 => match x.next_sync_committee_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            26 => match x.next_withdrawal_index_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            27 => match x.next_withdrawal_validator_index_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            28 => match x.historical_summaries_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            29 => match x.latest_execution_payload_header_mut() { Some(y) => { match y { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Deneb(y) => *y = must(dec(b)) }; true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_beaconstate_ref(x: &types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconstate_rm(x: &types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconstate_rm_m(x: &mut types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_beaconstate(f: Fork, b: &[u8]) -> types::mainnet::BeaconState {
        match f {
            Fork::Phase0 => types::mainnet::BeaconState::Phase0(must(dec(b))),
            Fork::Altair => types::mainnet::BeaconState::Altair(must(dec(b))),
            Fork::Bellatrix => types::mainnet::BeaconState::Bellatrix(must(dec(b))),
            Fork::Capella => types::mainnet::BeaconState::Capella(must(dec(b))),
            Fork::Deneb => types::mainnet::BeaconState::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_beaconstate(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_beaconstate(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_beaconstate(&e), inner: inner_beaconstate(&e), inner_mut: Some(inner_beaconstate_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::mainnet::BeaconState>(rep.json.clone()).ok(), serde_json::from_str::<types::mainnet::BeaconState>(&rep.text).ok(), serde_json::from_reader::<_, types::mainnet::BeaconState>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_beaconstate(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Phase0 => {
                let mut i: ethereum_consensus::phase0::mainnet::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Altair => {
                let mut i: ethereum_consensus::altair::mainnet::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::mainnet::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::mainnet::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::mainnet::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_beaconstate(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::mainnet::BeaconState>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_blindedbeaconblock(x: &types::mainnet::BlindedBeaconBlock) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_blindedbeaconblock(x: &mut types::mainnet::BlindedBeaconBlock, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            1 => { let y = x.proposer_index_mut(); *y = must(dec(b)); true }
            2 => { let y = x.parent_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.body_mut(); match y { types::BlindedBeaconBlockBodyRefMut::Bellatrix(y) => *y = must(dec(b)), types::BlindedBeaconBlockBodyRefMut::Capella(y) => *y = must(dec(b)), types::BlindedBeaconBlockBodyRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_blindedbeaconblock(x: &types::mainnet::BlindedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblock_m(x: &mut types::mainnet::BlindedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_blindedbeaconblock_ref(x: &types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn read_blindedbeaconblock_rm(x: &types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_blindedbeaconblock_rm(x: &mut types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            1 => { let y = x.proposer_index_mut(); *y = must(dec(b)); true }
            2 => { let y = x.parent_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.body_mut(); match y { types::BlindedBeaconBlockBodyRefMut::Bellatrix(y) => *y = must(dec(b)), types::BlindedBeaconBlockBodyRefMut::Capella(y) => *y = must(dec(b)), types::BlindedBeaconBlockBodyRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_blindedbeaconblock_ref(x: &types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblock_rm(x: &types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblock_rm_m(x: &mut types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_blindedbeaconblock(f: Fork, b: &[u8]) -> types::mainnet::BlindedBeaconBlock {
        match f {
            Fork::Bellatrix => types::mainnet::BlindedBeaconBlock::Bellatrix(must(dec(b))),
            Fork::Capella => types::mainnet::BlindedBeaconBlock::Capella(must(dec(b))),
            Fork::Deneb => types::mainnet::BlindedBeaconBlock::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_blindedbeaconblock(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_blindedbeaconblock(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_blindedbeaconblock(&e), inner: inner_blindedbeaconblock(&e), inner_mut: Some(inner_blindedbeaconblock_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::mainnet::BlindedBeaconBlock>(rep.json.clone()).ok(), serde_json::from_str::<types::mainnet::BlindedBeaconBlock>(&rep.text).ok(), serde_json::from_reader::<_, types::mainnet::BlindedBeaconBlock>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_blindedbeaconblock(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::mainnet::BlindedBeaconBlock = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_ref(&x), inner: inner_blindedbeaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_rm(&x), inner: inner_blindedbeaconblock_rm(&x), inner_mut: Some(inner_blindedbeaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::mainnet::BlindedBeaconBlock = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_ref(&x), inner: inner_blindedbeaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_rm(&x), inner: inner_blindedbeaconblock_rm(&x), inner_mut: Some(inner_blindedbeaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::mainnet::BlindedBeaconBlock = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_ref(&x), inner: inner_blindedbeaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_rm(&x), inner: inner_blindedbeaconblock_rm(&x), inner_mut: Some(inner_blindedbeaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_blindedbeaconblock(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::mainnet::BlindedBeaconBlock>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_blindedbeaconblockbody(x: &types::mainnet::BlindedBeaconBlockBody) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.sync_aggregate(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.execution_payload_header(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_blindedbeaconblockbody(x: &mut types::mainnet::BlindedBeaconBlockBody, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.randao_reveal_mut(); *y = must(dec(b)); true }
            1 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            2 => { let y = x.graffiti_mut(); *y = must(dec(b)); true }
            3 => { let y = x.proposer_slashings_mut(); *y = must(dec(b)); true }
            4 => { let y = x.attester_slashings_mut(); *y = must(dec(b)); true }
            5 => { let y = x.attestations_mut(); *y = must(dec(b)); true }
            6 => { let y = x.deposits_mut(); *y = must(dec(b)); true }
            7 => { let y = x.voluntary_exits_mut(); *y = must(dec(b)); true }
            8 => { let y = x.sync_aggregate_mut(); *y = must(dec(b)); true }
            9 => { let y = x.execution_payload_header_mut(); match y { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            10 => match x.bls_to_execution_changes_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            11 => match x.blob_kzg_commitments_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_blindedbeaconblockbody(x: &types::mainnet::BlindedBeaconBlockBody) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblockbody_m(x: &mut types::mainnet::BlindedBeaconBlockBody) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_blindedbeaconblockbody_ref(x: &types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.sync_aggregate(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.execution_payload_header(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn read_blindedbeaconblockbody_rm(x: &types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.sync_aggregate(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.execution_payload_header(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_blindedbeaconblockbody_rm(x: &mut types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.randao_reveal_mut(); *y = must(dec(b)); true }
            1 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            2 => { let y = x.graffiti_mut(); *y = must(dec(b)); true }
            3 => { let y = x.proposer_slashings_mut(); *y = must(dec(b)); true }
            4 => { let y = x.attester_slashings_mut(); *y = must(dec(b)); true }
            5 => { let y = x.attestations_mut(); *y = must(dec(b)); true }
            6 => { let y = x.deposits_mut(); *y = must(dec(b)); true }
            7 => { let y = x.voluntary_exits_mut(); *y = must(dec(b)); true }
            8 => { let y = x.sync_aggregate_mut(); *y = must(dec(b)); true }
            9 => { let y = x.execution_payload_header_mut(); match y { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            10 => match x.bls_to_execution_changes_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            11 => match x.blob_kzg_commitments_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_blindedbeaconblockbody_ref(x: &types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblockbody_rm(x: &types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblockbody_rm_m(x: &mut types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_blindedbeaconblockbody(f: Fork, b: &[u8]) -> types::mainnet::BlindedBeaconBlockBody {
        match f {
            Fork::Bellatrix => types::mainnet::BlindedBeaconBlockBody::Bellatrix(must(dec(b))),
            Fork::Capella => types::mainnet::BlindedBeaconBlockBody::Capella(must(dec(b))),
            Fork::Deneb => types::mainnet::BlindedBeaconBlockBody::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_blindedbeaconblockbody(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_blindedbeaconblockbody(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_blindedbeaconblockbody(&e), inner: inner_blindedbeaconblockbody(&e), inner_mut: Some(inner_blindedbeaconblockbody_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::mainnet::BlindedBeaconBlockBody>(rep.json.clone()).ok(), serde_json::from_str::<types::mainnet::BlindedBeaconBlockBody>(&rep.text).ok(), serde_json::from_reader::<_, types::mainnet::BlindedBeaconBlockBody>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_blindedbeaconblockbody(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::mainnet::BlindedBeaconBlockBody = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_ref(&x), inner: inner_blindedbeaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_rm(&x), inner: inner_blindedbeaconblockbody_rm(&x), inner_mut: Some(inner_blindedbeaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::mainnet::BlindedBeaconBlockBody = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_ref(&x), inner: inner_blindedbeaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_rm(&x), inner: inner_blindedbeaconblockbody_rm(&x), inner_mut: Some(inner_blindedbeaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::mainnet::BlindedBeaconBlockBody = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_ref(&x), inner: inner_blindedbeaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_rm(&x), inner: inner_blindedbeaconblockbody_rm(&x), inner_mut: Some(inner_blindedbeaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_blindedbeaconblockbody(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::mainnet::BlindedBeaconBlockBody>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_executionpayload(x: &types::mainnet::ExecutionPayload) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_executionpayload(x: &mut types::mainnet::ExecutionPayload, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.parent_hash_mut(); *y = must(dec(b)); true }
            1 => { let y = x.fee_recipient_mut(); *y = must(dec(b)); true }
            2 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.receipts_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.logs_bloom_mut(); *y = must(dec(b)); true }
            5 => { let y = x.prev_randao_mut(); *y = must(dec(b)); true }
            6 => { let y = x.block_number_mut(); *y = must(dec(b)); true }
            7 => { let y = x.gas_limit_mut(); *y = must(dec(b)); true }
            8 => { let y = x.gas_used_mut(); *y = must(dec(b)); true }
            9 => { let y = x.timestamp_mut(); *y = must(dec(b)); true }
            10 => { let y = x.extra_data_mut(); *y = must(dec(b)); true }
            11 => { let y = x.base_fee_per_gas_mut(); *y = must(dec(b)); true }
            12 => { let y = x.block_hash_mut(); *y = must(dec(b)); true }
            13 => { let y = x.transactions_mut(); *y = must(dec(b)); true }
            14 => match x.withdrawals_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            15 => match x.blob_gas_used_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            16 => match x.excess_blob_gas_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_executionpayload(x: &types::mainnet::ExecutionPayload) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayload_m(x: &mut types::mainnet::ExecutionPayload) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_executionpayload_ref(x: &types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn read_executionpayload_rm(x: &types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_executionpayload_rm(x: &mut types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.parent_hash_mut(); *y = must(dec(b)); true }
            1 => { let y = x.fee_recipient_mut(); *y = must(dec(b)); true }
            2 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.receipts_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.logs_bloom_mut(); *y = must(dec(b)); true }
            5 => { let y = x.prev_randao_mut(); *y = must(dec(b)); true }
            6 => { let y = x.block_number_mut(); *y = must(dec(b)); true }
            7 => { let y = x.gas_limit_mut(); *y = must(dec(b)); true }
            8 => { let y = x.gas_used_mut(); *y = must(dec(b)); true }
            9 => { let y = x.timestamp_mut(); *y = must(dec(b)); true }
            10 => { let y = x.extra_data_mut(); *y = must(dec(b)); true }
            11 => { let y = x.base_fee_per_gas_mut(); *y = must(dec(b)); true }
            12 => { let y = x.block_hash_mut(); *y = must(dec(b)); true }
            13 => { let y = x.transactions_mut(); *y = must(dec(b)); true }
            14 => match x.withdrawals_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            15 => match x.blob_gas_used_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            16 => match x.excess_blob_gas_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_executionpayload_ref(x: &types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayload_rm(x: &types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayload_rm_m(x: &mut types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_executionpayload(f: Fork, b: &[u8]) -> types::mainnet::ExecutionPayload {
        match f {
            Fork::Bellatrix => types::mainnet::ExecutionPayload::Bellatrix(must(dec(b))),
            Fork::Capella => types::mainnet::ExecutionPayload::Capella(must(dec(b))),
            Fork::Deneb => types::mainnet::ExecutionPayload::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_executionpayload(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_executionpayload(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_executionpayload(&e), inner: inner_executionpayload(&e), inner_mut: Some(inner_executionpayload_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::mainnet::ExecutionPayload>(rep.json.clone()).ok(), serde_json::from_str::<types::mainnet::ExecutionPayload>(&rep.text).ok(), serde_json::from_reader::<_, types::mainnet::ExecutionPayload>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_executionpayload(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::mainnet::ExecutionPayload = must(dec(b));
                {
                    let x: types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_ref(&x), inner: inner_executionpayload_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_rm(&x), inner: inner_executionpayload_rm(&x), inner_mut: Some(inner_executionpayload_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut j);
                        write_executionpayload_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::mainnet::ExecutionPayload = must(dec(b));
                {
                    let x: types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_ref(&x), inner: inner_executionpayload_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_rm(&x), inner: inner_executionpayload_rm(&x), inner_mut: Some(inner_executionpayload_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut j);
                        write_executionpayload_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::mainnet::ExecutionPayload = must(dec(b));
                {
                    let x: types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_ref(&x), inner: inner_executionpayload_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_rm(&x), inner: inner_executionpayload_rm(&x), inner_mut: Some(inner_executionpayload_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut j);
                        write_executionpayload_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_executionpayload(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::mainnet::ExecutionPayload>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_executionpayloadheader(x: &types::mainnet::ExecutionPayloadHeader) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions_root(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals_root().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_executionpayloadheader(x: &mut types::mainnet::ExecutionPayloadHeader, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.parent_hash_mut(); *y = must(dec(b)); true }
            1 => { let y = x.fee_recipient_mut(); *y = must(dec(b)); true }
            2 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.receipts_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.logs_bloom_mut(); *y = must(dec(b)); true }
            5 => { let y = x.prev_randao_mut(); *y = must(dec(b)); true }
            6 => { let y = x.block_number_mut(); *y = must(dec(b)); true }
            7 => { let y = x.gas_limit_mut(); *y = must(dec(b)); true }
            8 => { let y = x.gas_used_mut(); *y = must(dec(b)); true }
            9 => { let y = x.timestamp_mut(); *y = must(dec(b)); true }
            10 => { let y = x.extra_data_mut(); *y = must(dec(b)); true }
            11 => { let y = x.base_fee_per_gas_mut(); *y = must(dec(b)); true }
            12 => { let y = x.block_hash_mut(); *y = must(dec(b)); true }
            13 => { let y = x.transactions_root_mut(); *y = must(dec(b)); true }
            14 => match x.withdrawals_root_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            15 => match x.blob_gas_used_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            16 => match x.excess_blob_gas_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_executionpayloadheader(x: &types::mainnet::ExecutionPayloadHeader) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayloadheader_m(x: &mut types::mainnet::ExecutionPayloadHeader) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_executionpayloadheader_ref(x: &types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions_root(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals_root().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn read_executionpayloadheader_rm(x: &types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions_root(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals_root().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_executionpayloadheader_rm(x: &mut types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.parent_hash_mut(); *y = must(dec(b)); true }
            1 => { let y = x.fee_recipient_mut(); *y = must(dec(b)); true }
            2 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.receipts_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.logs_bloom_mut(); *y = must(dec(b)); true }
            5 => { let y = x.prev_randao_mut(); *y = must(dec(b)); true }
            6 => { let y = x.block_number_mut(); *y = must(dec(b)); true }
            7 => { let y = x.gas_limit_mut(); *y = must(dec(b)); true }
            8 => { let y = x.gas_used_mut(); *y = must(dec(b)); true }
            9 => { let y = x.timestamp_mut(); *y = must(dec(b)); true }
            10 => { let y = x.extra_data_mut(); *y = must(dec(b)); true }
            11 => { let y = x.base_fee_per_gas_mut(); *y = must(dec(b)); true }
            12 => { let y = x.block_hash_mut(); *y = must(dec(b)); true }
            13 => { let y = x.transactions_root_mut(); *y = must(dec(b)); true }
            14 => match x.withdrawals_root_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            15 => match x.blob_gas_used_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            16 => match x.excess_blob_gas_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_executionpayloadheader_ref(x: &types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayloadheader_rm(x: &types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayloadheader_rm_m(x: &mut types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_executionpayloadheader(f: Fork, b: &[u8]) -> types::mainnet::ExecutionPayloadHeader {
        match f {
            Fork::Bellatrix => types::mainnet::ExecutionPayloadHeader::Bellatrix(must(dec(b))),
            Fork::Capella => types::mainnet::ExecutionPayloadHeader::Capella(must(dec(b))),
            Fork::Deneb => types::mainnet::ExecutionPayloadHeader::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_executionpayloadheader(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_executionpayloadheader(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_executionpayloadheader(&e), inner: inner_executionpayloadheader(&e), inner_mut: Some(inner_executionpayloadheader_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::mainnet::ExecutionPayloadHeader>(rep.json.clone()).ok(), serde_json::from_str::<types::mainnet::ExecutionPayloadHeader>(&rep.text).ok(), serde_json::from_reader::<_, types::mainnet::ExecutionPayloadHeader>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_executionpayloadheader(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::mainnet::ExecutionPayloadHeader = must(dec(b));
                {
                    let x: types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_ref(&x), inner: inner_executionpayloadheader_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_rm(&x), inner: inner_executionpayloadheader_rm(&x), inner_mut: Some(inner_executionpayloadheader_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut j);
                        write_executionpayloadheader_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::mainnet::ExecutionPayloadHeader = must(dec(b));
                {
                    let x: types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_ref(&x), inner: inner_executionpayloadheader_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_rm(&x), inner: inner_executionpayloadheader_rm(&x), inner_mut: Some(inner_executionpayloadheader_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut j);
                        write_executionpayloadheader_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::mainnet::ExecutionPayloadHeader = must(dec(b));
                {
                    let x: types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_ref(&x), inner: inner_executionpayloadheader_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_rm(&x), inner: inner_executionpayloadheader_rm(&x), inner_mut: Some(inner_executionpayloadheader_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut j);
                        write_executionpayloadheader_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_executionpayloadheader(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::mainnet::ExecutionPayloadHeader>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_signedbeaconblock(x: &types::mainnet::SignedBeaconBlock) -> Vec<Seen> {
        vec![
            { let y = x.signature(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.message(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_signedbeaconblock(x: &mut types::mainnet::SignedBeaconBlock, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.signature_mut(); *y = must(dec(b)); true }
            1 => { let y = x.message_mut(); match y { types::BeaconBlockRefMut::Phase0(y) => *y = must(dec(b)), types::BeaconBlockRefMut::Altair(y) => *y = must(dec(b)), types::BeaconBlockRefMut::Bellatrix(y) => *y = must(dec(b)), types::BeaconBlockRefMut::Capella(y) => *y = must(dec(b)), types::BeaconBlockRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_signedbeaconblock(x: &types::mainnet::SignedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_signedbeaconblock_m(x: &mut types::mainnet::SignedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_signedbeaconblock(f: Fork, b: &[u8]) -> types::mainnet::SignedBeaconBlock {
        match f {
            Fork::Phase0 => types::mainnet::SignedBeaconBlock::Phase0(must(dec(b))),
            Fork::Altair => types::mainnet::SignedBeaconBlock::Altair(must(dec(b))),
            Fork::Bellatrix => types::mainnet::SignedBeaconBlock::Bellatrix(must(dec(b))),
            Fork::Capella => types::mainnet::SignedBeaconBlock::Capella(must(dec(b))),
            Fork::Deneb => types::mainnet::SignedBeaconBlock::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_signedbeaconblock(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_signedbeaconblock(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_signedbeaconblock(&e), inner: inner_signedbeaconblock(&e), inner_mut: Some(inner_signedbeaconblock_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::mainnet::SignedBeaconBlock>(rep.json.clone()).ok(), serde_json::from_str::<types::mainnet::SignedBeaconBlock>(&rep.text).ok(), serde_json::from_reader::<_, types::mainnet::SignedBeaconBlock>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_signedbeaconblock(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        rep
    }
    pub fn doc_signedbeaconblock(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::mainnet::SignedBeaconBlock>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_signedblindedbeaconblock(x: &types::mainnet::SignedBlindedBeaconBlock) -> Vec<Seen> {
        vec![
            { let y = x.signature(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.message(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_signedblindedbeaconblock(x: &mut types::mainnet::SignedBlindedBeaconBlock, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.signature_mut(); *y = must(dec(b)); true }
            1 => { let y = x.message_mut(); match y { types::BlindedBeaconBlockRefMut::Bellatrix(y) => *y = must(dec(b)), types::BlindedBeaconBlockRefMut::Capella(y) => *y = must(dec(b)), types::BlindedBeaconBlockRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_signedblindedbeaconblock(x: &types::mainnet::SignedBlindedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_signedblindedbeaconblock_m(x: &mut types::mainnet::SignedBlindedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_signedblindedbeaconblock(f: Fork, b: &[u8]) -> types::mainnet::SignedBlindedBeaconBlock {
        match f {
            Fork::Bellatrix => types::mainnet::SignedBlindedBeaconBlock::Bellatrix(must(dec(b))),
            Fork::Capella => types::mainnet::SignedBlindedBeaconBlock::Capella(must(dec(b))),
            Fork::Deneb => types::mainnet::SignedBlindedBeaconBlock::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_signedblindedbeaconblock(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_signedblindedbeaconblock(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_signedblindedbeaconblock(&e), inner: inner_signedblindedbeaconblock(&e), inner_mut: Some(inner_signedblindedbeaconblock_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::mainnet::SignedBlindedBeaconBlock>(rep.json.clone()).ok(), serde_json::from_str::<types::mainnet::SignedBlindedBeaconBlock>(&rep.text).ok(), serde_json::from_reader::<_, types::mainnet::SignedBlindedBeaconBlock>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_signedblindedbeaconblock(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        rep
    }
    pub fn doc_signedblindedbeaconblock(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::mainnet::SignedBlindedBeaconBlock>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
}
pub mod minimal {
    use super::*;
    #[allow(unused_imports)]
    use ethereum_consensus::{ altair::minimal::SYNC_COMMITTEE_SIZE, bellatrix::minimal::{ BYTES_PER_LOGS_BLOOM, MAX_BYTES_PER_TRANSACTION, MAX_EXTRA_DATA_BYTES, MAX_TRANSACTIONS_PER_PAYLOAD, }, capella::minimal::{MAX_BLS_TO_EXECUTION_CHANGES, MAX_WITHDRAWALS_PER_PAYLOAD}, deneb::minimal::MAX_BLOB_COMMITMENTS_PER_BLOCK, phase0::minimal::{ EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, ETH1_DATA_VOTES_BOUND, HISTORICAL_ROOTS_LIMIT, MAX_ATTESTATIONS, MAX_ATTESTER_SLASHINGS, MAX_DEPOSITS, MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_VOLUNTARY_EXITS, PENDING_ATTESTATIONS_BOUND, SLOTS_PER_HISTORICAL_ROOT, VALIDATOR_REGISTRY_LIMIT, }, };
    fn read_beaconblock(x: &types::minimal::BeaconBlock) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_beaconblock(x: &mut types::minimal::BeaconBlock, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            1 => { let y = x.proposer_index_mut(); *y = must(dec(b)); true }
            2 => { let y = x.parent_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.body_mut(); match y { types::BeaconBlockBodyRefMut::Phase0(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Altair(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Bellatrix(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Capella(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_beaconblock(x: &types::minimal::BeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblock_m(x: &mut types::minimal::BeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_beaconblock_ref(x: &types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn read_beaconblock_rm(x: &types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_beaconblock_rm(x: &mut types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            1 => { let y = x.proposer_index_mut(); *y = must(dec(b)); true }
            2 => { let y = x.parent_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.body_mut(); match y { types::BeaconBlockBodyRefMut::Phase0(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Altair(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Bellatrix(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Capella(y) => *y = must(dec(b)), types::BeaconBlockBodyRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_beaconblock_ref(x: &types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblock_rm(x: &types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblock_rm_m(x: &mut types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_beaconblock(f: Fork, b: &[u8]) -> types::minimal::BeaconBlock {
        match f {
            Fork::Phase0 => types::minimal::BeaconBlock::Phase0(must(dec(b))),
            Fork::Altair => types::minimal::BeaconBlock::Altair(must(dec(b))),
            Fork::Bellatrix => types::minimal::BeaconBlock::Bellatrix(must(dec(b))),
            Fork::Capella => types::minimal::BeaconBlock::Capella(must(dec(b))),
            Fork::Deneb => types::minimal::BeaconBlock::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_beaconblock(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_beaconblock(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_beaconblock(&e), inner: inner_beaconblock(&e), inner_mut: Some(inner_beaconblock_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::minimal::BeaconBlock>(rep.json.clone()).ok(), serde_json::from_str::<types::minimal::BeaconBlock>(&rep.text).ok(), serde_json::from_reader::<_, types::minimal::BeaconBlock>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_beaconblock(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Phase0 => {
                let mut i: ethereum_consensus::phase0::minimal::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Altair => {
                let mut i: ethereum_consensus::altair::minimal::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::minimal::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::minimal::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::minimal::BeaconBlock = must(dec(b));
                {
                    let x: types::BeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_ref(&x), inner: inner_beaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblock_rm(&x), inner: inner_beaconblock_rm(&x), inner_mut: Some(inner_beaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_beaconblock(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::minimal::BeaconBlock>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_beaconblockbody(x: &types::minimal::BeaconBlockBody) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            x.sync_aggregate().map(|y| (rt(y.hash_tree_root()), None)),
            x.execution_payload().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_beaconblockbody(x: &mut types::minimal::BeaconBlockBody, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.randao_reveal_mut(); *y = must(dec(b)); true }
            1 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            2 => { let y = x.graffiti_mut(); *y = must(dec(b)); true }
            3 => { let y = x.proposer_slashings_mut(); *y = must(dec(b)); true }
            4 => { let y = x.attester_slashings_mut(); *y = must(dec(b)); true }
            5 => { let y = x.attestations_mut(); *y = must(dec(b)); true }
            6 => { let y = x.deposits_mut(); *y = must(dec(b)); true }
            7 => { let y = x.voluntary_exits_mut(); *y = must(dec(b)); true }
            8 => match x.sync_aggregate_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            9 => match x.execution_payload_mut() { Some(y) => { match y { types::ExecutionPayloadRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadRefMut::Deneb(y) => *y = must(dec(b)) }; true }, None => false },
            10 => match x.bls_to_execution_changes_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            11 => match x.blob_kzg_commitments_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_beaconblockbody(x: &types::minimal::BeaconBlockBody) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblockbody_m(x: &mut types::minimal::BeaconBlockBody) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_beaconblockbody_ref(x: &types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            x.sync_aggregate().map(|y| (rt(y.hash_tree_root()), None)),
            x.execution_payload().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn read_beaconblockbody_rm(x: &types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            x.sync_aggregate().map(|y| (rt(y.hash_tree_root()), None)),
            x.execution_payload().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_beaconblockbody_rm(x: &mut types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.randao_reveal_mut(); *y = must(dec(b)); true }
            1 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            2 => { let y = x.graffiti_mut(); *y = must(dec(b)); true }
            3 => { let y = x.proposer_slashings_mut(); *y = must(dec(b)); true }
            4 => { let y = x.attester_slashings_mut(); *y = must(dec(b)); true }
            5 => { let y = x.attestations_mut(); *y = must(dec(b)); true }
            6 => { let y = x.deposits_mut(); *y = must(dec(b)); true }
            7 => { let y = x.voluntary_exits_mut(); *y = must(dec(b)); true }
            8 => match x.sync_aggregate_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            9 => match x.execution_payload_mut() { Some(y) => { match y { types::ExecutionPayloadRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadRefMut::Deneb(y) => *y = must(dec(b)) }; true }, None => false },
            10 => match x.bls_to_execution_changes_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            11 => match x.blob_kzg_commitments_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_beaconblockbody_ref(x: &types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblockbody_rm(x: &types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconblockbody_rm_m(x: &mut types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_beaconblockbody(f: Fork, b: &[u8]) -> types::minimal::BeaconBlockBody {
        match f {
            Fork::Phase0 => types::minimal::BeaconBlockBody::Phase0(must(dec(b))),
            Fork::Altair => types::minimal::BeaconBlockBody::Altair(must(dec(b))),
            Fork::Bellatrix => types::minimal::BeaconBlockBody::Bellatrix(must(dec(b))),
            Fork::Capella => types::minimal::BeaconBlockBody::Capella(must(dec(b))),
            Fork::Deneb => types::minimal::BeaconBlockBody::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_beaconblockbody(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_beaconblockbody(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_beaconblockbody(&e), inner: inner_beaconblockbody(&e), inner_mut: Some(inner_beaconblockbody_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::minimal::BeaconBlockBody>(rep.json.clone()).ok(), serde_json::from_str::<types::minimal::BeaconBlockBody>(&rep.text).ok(), serde_json::from_reader::<_, types::minimal::BeaconBlockBody>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_beaconblockbody(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Phase0 => {
                let mut i: ethereum_consensus::phase0::minimal::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Altair => {
                let mut i: ethereum_consensus::altair::minimal::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::minimal::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::minimal::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::minimal::BeaconBlockBody = must(dec(b));
                {
                    let x: types::BeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_ref(&x), inner: inner_beaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconblockbody_rm(&x), inner: inner_beaconblockbody_rm(&x), inner_mut: Some(inner_beaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_beaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_beaconblockbody(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::minimal::BeaconBlockBody>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_beaconstate(x: &types::minimal::BeaconState) -> Vec<Seen> {
        vec![
            { let y = x.genesis_time(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.genesis_validators_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fork(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.latest_block_header(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.historical_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data_votes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_deposit_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.validators(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.balances(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.randao_mixes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.justification_bits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.previous_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.current_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.finalized_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            x.previous_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.previous_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.inactivity_scores().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_validator_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.historical_summaries().map(|y| (rt(y.hash_tree_root()), None)),
            x.latest_execution_payload_header().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
        ]
    }
    fn write_beaconstate(x: &mut types::minimal::BeaconState, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.genesis_time_mut(); *y = must(dec(b)); true }
            1 => { let y = x.genesis_validators_root_mut(); *y = must(dec(b)); true }
            2 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            3 => { let y = x.fork_mut(); *y = must(dec(b)); true }
            4 => { let y = x.latest_block_header_mut(); *y = must(dec(b)); true }
            5 => { let y = x.block_roots_mut(); *y = must(dec(b)); true }
            6 => { let y = x.state_roots_mut(); *y = must(dec(b)); true }
            7 => { let y = x.historical_roots_mut(); *y = must(dec(b)); true }
            8 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            9 => { let y = x.eth1_data_votes_mut(); *y = must(dec(b)); true }
            10 => { let y = x.eth1_deposit_index_mut(); *y = must(dec(b)); true }
            11 => { let y = x.validators_mut(); *y = must(dec(b)); true }
            12 => { let y = x.balances_mut(); *y = must(dec(b)); true }
            13 => { let y = x.randao_mixes_mut(); *y = must(dec(b)); true }
            14 => { let y = x.slashings_mut(); *y = must(dec(b)); true }
            15 => { let y = x.justification_bits_mut(); *y = must(dec(b)); true }
            16 => { let y = x.previous_justified_checkpoint_mut(); *y = must(dec(b)); true }
            17 => { let y = x.current_justified_checkpoint_mut(); *y = must(dec(b)); true }
            18 => { let y = x.finalized_checkpoint_mut(); *y = must(dec(b)); true }
            19 => match x.previous_epoch_attestations_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            20 => match x.current_epoch_attestations_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            21 => match x.previous_epoch_participation_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            22 => match x.current_epoch_participation_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            23 => match x.inactivity_scores_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            24 => match x.current_sync_committee_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            25 => match x.next_sync_committee_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            26 => match x.next_withdrawal_index_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            27 => match x.next_withdrawal_validator_index_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            28 => match x.historical_summaries_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            29 => match x.latest_execution_payload_header_mut() { Some(y) => { match y { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Deneb(y) => *y = must(dec(b)) }; true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_beaconstate(x: &types::minimal::BeaconState) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconstate_m(x: &mut types::minimal::BeaconState) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_beaconstate_ref(x: &types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<Seen> {
        vec![
            { let y = x.genesis_time(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.genesis_validators_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fork(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.latest_block_header(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.historical_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data_votes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_deposit_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.validators(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.balances(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.randao_mixes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.justification_bits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.previous_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.current_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.finalized_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            x.previous_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.previous_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.inactivity_scores().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_validator_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.historical_summaries().map(|y| (rt(y.hash_tree_root()), None)),
            x.latest_execution_payload_header().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
        ]
    }
    fn read_beaconstate_rm(x: &types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<Seen> {
        vec![
            { let y = x.genesis_time(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.genesis_validators_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fork(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.latest_block_header(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.historical_roots(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data_votes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_deposit_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.validators(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.balances(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.randao_mixes(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.justification_bits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.previous_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.current_justified_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.finalized_checkpoint(); Some((rt(y.hash_tree_root()), None)) },
            x.previous_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_attestations().map(|y| (rt(y.hash_tree_root()), None)),
            x.previous_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_epoch_participation().map(|y| (rt(y.hash_tree_root()), None)),
            x.inactivity_scores().map(|y| (rt(y.hash_tree_root()), None)),
            x.current_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_sync_committee().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.next_withdrawal_validator_index().map(|y| (rt(y.hash_tree_root()), None)),
            x.historical_summaries().map(|y| (rt(y.hash_tree_root()), None)),
            x.latest_execution_payload_header().map(|y| (rt(y.hash_tree_root()), Some(fork_of(y.version())))),
        ]
    }
    fn write_beaconstate_rm(x: &mut types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.genesis_time_mut(); *y = must(dec(b)); true }
            1 => { let y = x.genesis_validators_root_mut(); *y = must(dec(b)); true }
            2 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            3 => { let y = x.fork_mut(); *y = must(dec(b)); true }
            4 => { let y = x.latest_block_header_mut(); *y = must(dec(b)); true }
            5 => { let y = x.block_roots_mut(); *y = must(dec(b)); true }
            6 => { let y = x.state_roots_mut(); *y = must(dec(b)); true }
            7 => { let y = x.historical_roots_mut(); *y = must(dec(b)); true }
            8 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            9 => { let y = x.eth1_data_votes_mut(); *y = must(dec(b)); true }
            10 => { let y = x.eth1_deposit_index_mut(); *y = must(dec(b)); true }
            11 => { let y = x.validators_mut(); *y = must(dec(b)); true }
            12 => { let y = x.balances_mut(); *y = must(dec(b)); true }
            13 => { let y = x.randao_mixes_mut(); *y = must(dec(b)); true }
            14 => { let y = x.slashings_mut(); *y = must(dec(b)); true }
            15 => { let y = x.justification_bits_mut(); *y = must(dec(b)); true }
            16 => { let y = x.previous_justified_checkpoint_mut(); *y = must(dec(b)); true }
            17 => { let y = x.current_justified_checkpoint_mut(); *y = must(dec(b)); true }
            18 => { let y = x.finalized_checkpoint_mut(); *y = must(dec(b)); true }
            19 => match x.previous_epoch_attestations_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            20 => match x.current_epoch_attestations_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            21 => match x.previous_epoch_participation_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            22 => match x.current_epoch_participation_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            23 => match x.inactivity_scores_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            24 => match x.current_sync_committee_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            25 => match x.next_sync_committee_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            26 => match x.next_withdrawal_index_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            27 => match x.next_withdrawal_validator_index_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            28 => match x.historical_summaries_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            29 => match x.latest_execution_payload_header_mut() { Some(y) => { match y { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Deneb(y) => *y = must(dec(b)) }; true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_beaconstate_ref(x: &types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconstate_rm(x: &types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_beaconstate_rm_m(x: &mut types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_beaconstate(f: Fork, b: &[u8]) -> types::minimal::BeaconState {
        match f {
            Fork::Phase0 => types::minimal::BeaconState::Phase0(must(dec(b))),
            Fork::Altair => types::minimal::BeaconState::Altair(must(dec(b))),
            Fork::Bellatrix => types::minimal::BeaconState::Bellatrix(must(dec(b))),
            Fork::Capella => types::minimal::BeaconState::Capella(must(dec(b))),
            Fork::Deneb => types::minimal::BeaconState::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_beaconstate(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_beaconstate(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_beaconstate(&e), inner: inner_beaconstate(&e), inner_mut: Some(inner_beaconstate_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::minimal::BeaconState>(rep.json.clone()).ok(), serde_json::from_str::<types::minimal::BeaconState>(&rep.text).ok(), serde_json::from_reader::<_, types::minimal::BeaconState>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_beaconstate(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Phase0 => {
                let mut i: ethereum_consensus::phase0::minimal::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Altair => {
                let mut i: ethereum_consensus::altair::minimal::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::minimal::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::minimal::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::minimal::BeaconState = must(dec(b));
                {
                    let x: types::BeaconStateRef<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_ref(&x), inner: inner_beaconstate_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_beaconstate_rm(&x), inner: inner_beaconstate_rm(&x), inner_mut: Some(inner_beaconstate_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BeaconStateRefMut<'_,  SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, PENDING_ATTESTATIONS_BOUND, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, > = From::from(&mut j);
                        write_beaconstate_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_beaconstate(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::minimal::BeaconState>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_blindedbeaconblock(x: &types::minimal::BlindedBeaconBlock) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_blindedbeaconblock(x: &mut types::minimal::BlindedBeaconBlock, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            1 => { let y = x.proposer_index_mut(); *y = must(dec(b)); true }
            2 => { let y = x.parent_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.body_mut(); match y { types::BlindedBeaconBlockBodyRefMut::Bellatrix(y) => *y = must(dec(b)), types::BlindedBeaconBlockBodyRefMut::Capella(y) => *y = must(dec(b)), types::BlindedBeaconBlockBodyRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_blindedbeaconblock(x: &types::minimal::BlindedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblock_m(x: &mut types::minimal::BlindedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_blindedbeaconblock_ref(x: &types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn read_blindedbeaconblock_rm(x: &types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.slot(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_index(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.parent_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.body(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_blindedbeaconblock_rm(x: &mut types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.slot_mut(); *y = must(dec(b)); true }
            1 => { let y = x.proposer_index_mut(); *y = must(dec(b)); true }
            2 => { let y = x.parent_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.body_mut(); match y { types::BlindedBeaconBlockBodyRefMut::Bellatrix(y) => *y = must(dec(b)), types::BlindedBeaconBlockBodyRefMut::Capella(y) => *y = must(dec(b)), types::BlindedBeaconBlockBodyRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_blindedbeaconblock_ref(x: &types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblock_rm(x: &types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblock_rm_m(x: &mut types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_blindedbeaconblock(f: Fork, b: &[u8]) -> types::minimal::BlindedBeaconBlock {
        match f {
            Fork::Bellatrix => types::minimal::BlindedBeaconBlock::Bellatrix(must(dec(b))),
            Fork::Capella => types::minimal::BlindedBeaconBlock::Capella(must(dec(b))),
            Fork::Deneb => types::minimal::BlindedBeaconBlock::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_blindedbeaconblock(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_blindedbeaconblock(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_blindedbeaconblock(&e), inner: inner_blindedbeaconblock(&e), inner_mut: Some(inner_blindedbeaconblock_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::minimal::BlindedBeaconBlock>(rep.json.clone()).ok(), serde_json::from_str::<types::minimal::BlindedBeaconBlock>(&rep.text).ok(), serde_json::from_reader::<_, types::minimal::BlindedBeaconBlock>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_blindedbeaconblock(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::minimal::BlindedBeaconBlock = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_ref(&x), inner: inner_blindedbeaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_rm(&x), inner: inner_blindedbeaconblock_rm(&x), inner_mut: Some(inner_blindedbeaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::minimal::BlindedBeaconBlock = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_ref(&x), inner: inner_blindedbeaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_rm(&x), inner: inner_blindedbeaconblock_rm(&x), inner_mut: Some(inner_blindedbeaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::minimal::BlindedBeaconBlock = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_ref(&x), inner: inner_blindedbeaconblock_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblock_rm(&x), inner: inner_blindedbeaconblock_rm(&x), inner_mut: Some(inner_blindedbeaconblock_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblock_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_blindedbeaconblock(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::minimal::BlindedBeaconBlock>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_blindedbeaconblockbody(x: &types::minimal::BlindedBeaconBlockBody) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.sync_aggregate(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.execution_payload_header(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_blindedbeaconblockbody(x: &mut types::minimal::BlindedBeaconBlockBody, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.randao_reveal_mut(); *y = must(dec(b)); true }
            1 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            2 => { let y = x.graffiti_mut(); *y = must(dec(b)); true }
            3 => { let y = x.proposer_slashings_mut(); *y = must(dec(b)); true }
            4 => { let y = x.attester_slashings_mut(); *y = must(dec(b)); true }
            5 => { let y = x.attestations_mut(); *y = must(dec(b)); true }
            6 => { let y = x.deposits_mut(); *y = must(dec(b)); true }
            7 => { let y = x.voluntary_exits_mut(); *y = must(dec(b)); true }
            8 => { let y = x.sync_aggregate_mut(); *y = must(dec(b)); true }
            9 => { let y = x.execution_payload_header_mut(); match y { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            10 => match x.bls_to_execution_changes_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            11 => match x.blob_kzg_commitments_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_blindedbeaconblockbody(x: &types::minimal::BlindedBeaconBlockBody) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblockbody_m(x: &mut types::minimal::BlindedBeaconBlockBody) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_blindedbeaconblockbody_ref(x: &types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.sync_aggregate(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.execution_payload_header(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn read_blindedbeaconblockbody_rm(x: &types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<Seen> {
        vec![
            { let y = x.randao_reveal(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.eth1_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.graffiti(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.proposer_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attester_slashings(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.attestations(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.deposits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.voluntary_exits(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.sync_aggregate(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.execution_payload_header(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
            x.bls_to_execution_changes().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_kzg_commitments().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_blindedbeaconblockbody_rm(x: &mut types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.randao_reveal_mut(); *y = must(dec(b)); true }
            1 => { let y = x.eth1_data_mut(); *y = must(dec(b)); true }
            2 => { let y = x.graffiti_mut(); *y = must(dec(b)); true }
            3 => { let y = x.proposer_slashings_mut(); *y = must(dec(b)); true }
            4 => { let y = x.attester_slashings_mut(); *y = must(dec(b)); true }
            5 => { let y = x.attestations_mut(); *y = must(dec(b)); true }
            6 => { let y = x.deposits_mut(); *y = must(dec(b)); true }
            7 => { let y = x.voluntary_exits_mut(); *y = must(dec(b)); true }
            8 => { let y = x.sync_aggregate_mut(); *y = must(dec(b)); true }
            9 => { let y = x.execution_payload_header_mut(); match y { types::ExecutionPayloadHeaderRefMut::Bellatrix(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Capella(y) => *y = must(dec(b)), types::ExecutionPayloadHeaderRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            10 => match x.bls_to_execution_changes_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            11 => match x.blob_kzg_commitments_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_blindedbeaconblockbody_ref(x: &types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblockbody_rm(x: &types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_blindedbeaconblockbody_rm_m(x: &mut types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_blindedbeaconblockbody(f: Fork, b: &[u8]) -> types::minimal::BlindedBeaconBlockBody {
        match f {
            Fork::Bellatrix => types::minimal::BlindedBeaconBlockBody::Bellatrix(must(dec(b))),
            Fork::Capella => types::minimal::BlindedBeaconBlockBody::Capella(must(dec(b))),
            Fork::Deneb => types::minimal::BlindedBeaconBlockBody::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_blindedbeaconblockbody(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_blindedbeaconblockbody(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_blindedbeaconblockbody(&e), inner: inner_blindedbeaconblockbody(&e), inner_mut: Some(inner_blindedbeaconblockbody_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::minimal::BlindedBeaconBlockBody>(rep.json.clone()).ok(), serde_json::from_str::<types::minimal::BlindedBeaconBlockBody>(&rep.text).ok(), serde_json::from_reader::<_, types::minimal::BlindedBeaconBlockBody>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_blindedbeaconblockbody(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::minimal::BlindedBeaconBlockBody = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_ref(&x), inner: inner_blindedbeaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_rm(&x), inner: inner_blindedbeaconblockbody_rm(&x), inner_mut: Some(inner_blindedbeaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::minimal::BlindedBeaconBlockBody = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_ref(&x), inner: inner_blindedbeaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_rm(&x), inner: inner_blindedbeaconblockbody_rm(&x), inner_mut: Some(inner_blindedbeaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::minimal::BlindedBeaconBlockBody = must(dec(b));
                {
                    let x: types::BlindedBeaconBlockBodyRef<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_ref(&x), inner: inner_blindedbeaconblockbody_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_blindedbeaconblockbody_rm(&x), inner: inner_blindedbeaconblockbody_rm(&x), inner_mut: Some(inner_blindedbeaconblockbody_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::BlindedBeaconBlockBodyRefMut<'_,  MAX_PROPOSER_SLASHINGS, MAX_VALIDATORS_PER_COMMITTEE, MAX_ATTESTER_SLASHINGS, MAX_ATTESTATIONS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, SYNC_COMMITTEE_SIZE, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK, > = From::from(&mut j);
                        write_blindedbeaconblockbody_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_blindedbeaconblockbody(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::minimal::BlindedBeaconBlockBody>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_executionpayload(x: &types::minimal::ExecutionPayload) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_executionpayload(x: &mut types::minimal::ExecutionPayload, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.parent_hash_mut(); *y = must(dec(b)); true }
            1 => { let y = x.fee_recipient_mut(); *y = must(dec(b)); true }
            2 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.receipts_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.logs_bloom_mut(); *y = must(dec(b)); true }
            5 => { let y = x.prev_randao_mut(); *y = must(dec(b)); true }
            6 => { let y = x.block_number_mut(); *y = must(dec(b)); true }
            7 => { let y = x.gas_limit_mut(); *y = must(dec(b)); true }
            8 => { let y = x.gas_used_mut(); *y = must(dec(b)); true }
            9 => { let y = x.timestamp_mut(); *y = must(dec(b)); true }
            10 => { let y = x.extra_data_mut(); *y = must(dec(b)); true }
            11 => { let y = x.base_fee_per_gas_mut(); *y = must(dec(b)); true }
            12 => { let y = x.block_hash_mut(); *y = must(dec(b)); true }
            13 => { let y = x.transactions_mut(); *y = must(dec(b)); true }
            14 => match x.withdrawals_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            15 => match x.blob_gas_used_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            16 => match x.excess_blob_gas_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_executionpayload(x: &types::minimal::ExecutionPayload) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayload_m(x: &mut types::minimal::ExecutionPayload) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_executionpayload_ref(x: &types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn read_executionpayload_rm(x: &types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_executionpayload_rm(x: &mut types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.parent_hash_mut(); *y = must(dec(b)); true }
            1 => { let y = x.fee_recipient_mut(); *y = must(dec(b)); true }
            2 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.receipts_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.logs_bloom_mut(); *y = must(dec(b)); true }
            5 => { let y = x.prev_randao_mut(); *y = must(dec(b)); true }
            6 => { let y = x.block_number_mut(); *y = must(dec(b)); true }
            7 => { let y = x.gas_limit_mut(); *y = must(dec(b)); true }
            8 => { let y = x.gas_used_mut(); *y = must(dec(b)); true }
            9 => { let y = x.timestamp_mut(); *y = must(dec(b)); true }
            10 => { let y = x.extra_data_mut(); *y = must(dec(b)); true }
            11 => { let y = x.base_fee_per_gas_mut(); *y = must(dec(b)); true }
            12 => { let y = x.block_hash_mut(); *y = must(dec(b)); true }
            13 => { let y = x.transactions_mut(); *y = must(dec(b)); true }
            14 => match x.withdrawals_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            15 => match x.blob_gas_used_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            16 => match x.excess_blob_gas_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_executionpayload_ref(x: &types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayload_rm(x: &types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayload_rm_m(x: &mut types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, >) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_executionpayload(f: Fork, b: &[u8]) -> types::minimal::ExecutionPayload {
        match f {
            Fork::Bellatrix => types::minimal::ExecutionPayload::Bellatrix(must(dec(b))),
            Fork::Capella => types::minimal::ExecutionPayload::Capella(must(dec(b))),
            Fork::Deneb => types::minimal::ExecutionPayload::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_executionpayload(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_executionpayload(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_executionpayload(&e), inner: inner_executionpayload(&e), inner_mut: Some(inner_executionpayload_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::minimal::ExecutionPayload>(rep.json.clone()).ok(), serde_json::from_str::<types::minimal::ExecutionPayload>(&rep.text).ok(), serde_json::from_reader::<_, types::minimal::ExecutionPayload>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_executionpayload(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::minimal::ExecutionPayload = must(dec(b));
                {
                    let x: types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_ref(&x), inner: inner_executionpayload_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_rm(&x), inner: inner_executionpayload_rm(&x), inner_mut: Some(inner_executionpayload_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut j);
                        write_executionpayload_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::minimal::ExecutionPayload = must(dec(b));
                {
                    let x: types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_ref(&x), inner: inner_executionpayload_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_rm(&x), inner: inner_executionpayload_rm(&x), inner_mut: Some(inner_executionpayload_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut j);
                        write_executionpayload_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::minimal::ExecutionPayload = must(dec(b));
                {
                    let x: types::ExecutionPayloadRef<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_ref(&x), inner: inner_executionpayload_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayload_rm(&x), inner: inner_executionpayload_rm(&x), inner_mut: Some(inner_executionpayload_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadRefMut<'_,  BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, > = From::from(&mut j);
                        write_executionpayload_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_executionpayload(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::minimal::ExecutionPayload>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_executionpayloadheader(x: &types::minimal::ExecutionPayloadHeader) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions_root(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals_root().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_executionpayloadheader(x: &mut types::minimal::ExecutionPayloadHeader, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.parent_hash_mut(); *y = must(dec(b)); true }
            1 => { let y = x.fee_recipient_mut(); *y = must(dec(b)); true }
            2 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.receipts_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.logs_bloom_mut(); *y = must(dec(b)); true }
            5 => { let y = x.prev_randao_mut(); *y = must(dec(b)); true }
            6 => { let y = x.block_number_mut(); *y = must(dec(b)); true }
            7 => { let y = x.gas_limit_mut(); *y = must(dec(b)); true }
            8 => { let y = x.gas_used_mut(); *y = must(dec(b)); true }
            9 => { let y = x.timestamp_mut(); *y = must(dec(b)); true }
            10 => { let y = x.extra_data_mut(); *y = must(dec(b)); true }
            11 => { let y = x.base_fee_per_gas_mut(); *y = must(dec(b)); true }
            12 => { let y = x.block_hash_mut(); *y = must(dec(b)); true }
            13 => { let y = x.transactions_root_mut(); *y = must(dec(b)); true }
            14 => match x.withdrawals_root_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            15 => match x.blob_gas_used_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            16 => match x.excess_blob_gas_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_executionpayloadheader(x: &types::minimal::ExecutionPayloadHeader) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayloadheader_m(x: &mut types::minimal::ExecutionPayloadHeader) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn read_executionpayloadheader_ref(x: &types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions_root(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals_root().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn read_executionpayloadheader_rm(x: &types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<Seen> {
        vec![
            { let y = x.parent_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.fee_recipient(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.state_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.receipts_root(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.logs_bloom(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.prev_randao(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_number(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_limit(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.gas_used(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.timestamp(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.extra_data(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.base_fee_per_gas(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.block_hash(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.transactions_root(); Some((rt(y.hash_tree_root()), None)) },
            x.withdrawals_root().map(|y| (rt(y.hash_tree_root()), None)),
            x.blob_gas_used().map(|y| (rt(y.hash_tree_root()), None)),
            x.excess_blob_gas().map(|y| (rt(y.hash_tree_root()), None)),
        ]
    }
    fn write_executionpayloadheader_rm(x: &mut types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.parent_hash_mut(); *y = must(dec(b)); true }
            1 => { let y = x.fee_recipient_mut(); *y = must(dec(b)); true }
            2 => { let y = x.state_root_mut(); *y = must(dec(b)); true }
            3 => { let y = x.receipts_root_mut(); *y = must(dec(b)); true }
            4 => { let y = x.logs_bloom_mut(); *y = must(dec(b)); true }
            5 => { let y = x.prev_randao_mut(); *y = must(dec(b)); true }
            6 => { let y = x.block_number_mut(); *y = must(dec(b)); true }
            7 => { let y = x.gas_limit_mut(); *y = must(dec(b)); true }
            8 => { let y = x.gas_used_mut(); *y = must(dec(b)); true }
            9 => { let y = x.timestamp_mut(); *y = must(dec(b)); true }
            10 => { let y = x.extra_data_mut(); *y = must(dec(b)); true }
            11 => { let y = x.base_fee_per_gas_mut(); *y = must(dec(b)); true }
            12 => { let y = x.block_hash_mut(); *y = must(dec(b)); true }
            13 => { let y = x.transactions_root_mut(); *y = must(dec(b)); true }
            14 => match x.withdrawals_root_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            15 => match x.blob_gas_used_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            16 => match x.excess_blob_gas_mut() { Some(y) => { *y = must(dec(b)); true }, None => false },
            _ => unreachable!(),
        }
    }
    fn inner_executionpayloadheader_ref(x: &types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayloadheader_rm(x: &types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_executionpayloadheader_rm_m(x: &mut types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES>) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_executionpayloadheader(f: Fork, b: &[u8]) -> types::minimal::ExecutionPayloadHeader {
        match f {
            Fork::Bellatrix => types::minimal::ExecutionPayloadHeader::Bellatrix(must(dec(b))),
            Fork::Capella => types::minimal::ExecutionPayloadHeader::Capella(must(dec(b))),
            Fork::Deneb => types::minimal::ExecutionPayloadHeader::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_executionpayloadheader(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_executionpayloadheader(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_executionpayloadheader(&e), inner: inner_executionpayloadheader(&e), inner_mut: Some(inner_executionpayloadheader_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::minimal::ExecutionPayloadHeader>(rep.json.clone()).ok(), serde_json::from_str::<types::minimal::ExecutionPayloadHeader>(&rep.text).ok(), serde_json::from_reader::<_, types::minimal::ExecutionPayloadHeader>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_executionpayloadheader(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        match f {
            Fork::Bellatrix => {
                let mut i: ethereum_consensus::bellatrix::minimal::ExecutionPayloadHeader = must(dec(b));
                {
                    let x: types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_ref(&x), inner: inner_executionpayloadheader_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_rm(&x), inner: inner_executionpayloadheader_rm(&x), inner_mut: Some(inner_executionpayloadheader_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut j);
                        write_executionpayloadheader_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Capella => {
                let mut i: ethereum_consensus::capella::minimal::ExecutionPayloadHeader = must(dec(b));
                {
                    let x: types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_ref(&x), inner: inner_executionpayloadheader_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_rm(&x), inner: inner_executionpayloadheader_rm(&x), inner_mut: Some(inner_executionpayloadheader_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut j);
                        write_executionpayloadheader_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            Fork::Deneb => {
                let mut i: ethereum_consensus::deneb::minimal::ExecutionPayloadHeader = must(dec(b));
                {
                    let x: types::ExecutionPayloadHeaderRef<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&i);
                    rep.views.push(View { what: "reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_ref(&x), inner: inner_executionpayloadheader_ref(&x), inner_mut: None });
                }
                {
                    let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut i);
                    rep.views.push(View { what: "mutable reference", version: fork_of(x.version()), root: rt(x.hash_tree_root()), reads: read_executionpayloadheader_rm(&x), inner: inner_executionpayloadheader_rm(&x), inner_mut: Some(inner_executionpayloadheader_rm_m(&mut x)) });
                }
                for (k, nb) in new.iter().enumerate() {
                    let mut j = i.clone();
                    let w = {
                        let mut x: types::ExecutionPayloadHeaderRefMut<'_, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES> = From::from(&mut j);
                        write_executionpayloadheader_rm(&mut x, k, nb.as_deref().unwrap_or(&[]))
                    };
                    rep.writes.push(("mutable reference", k, w, enc(&j)));
                }
            }
            _ => unreachable!(),
        }
        rep
    }
    pub fn doc_executionpayloadheader(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::minimal::ExecutionPayloadHeader>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_signedbeaconblock(x: &types::minimal::SignedBeaconBlock) -> Vec<Seen> {
        vec![
            { let y = x.signature(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.message(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_signedbeaconblock(x: &mut types::minimal::SignedBeaconBlock, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.signature_mut(); *y = must(dec(b)); true }
            1 => { let y = x.message_mut(); match y { types::BeaconBlockRefMut::Phase0(y) => *y = must(dec(b)), types::BeaconBlockRefMut::Altair(y) => *y = must(dec(b)), types::BeaconBlockRefMut::Bellatrix(y) => *y = must(dec(b)), types::BeaconBlockRefMut::Capella(y) => *y = must(dec(b)), types::BeaconBlockRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_signedbeaconblock(x: &types::minimal::SignedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0().map(|y| enc(&*y))), (Fork::Altair, x.altair().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_signedbeaconblock_m(x: &mut types::minimal::SignedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Phase0, x.phase0_mut().map(|y| enc(&*y))), (Fork::Altair, x.altair_mut().map(|y| enc(&*y))), (Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_signedbeaconblock(f: Fork, b: &[u8]) -> types::minimal::SignedBeaconBlock {
        match f {
            Fork::Phase0 => types::minimal::SignedBeaconBlock::Phase0(must(dec(b))),
            Fork::Altair => types::minimal::SignedBeaconBlock::Altair(must(dec(b))),
            Fork::Bellatrix => types::minimal::SignedBeaconBlock::Bellatrix(must(dec(b))),
            Fork::Capella => types::minimal::SignedBeaconBlock::Capella(must(dec(b))),
            Fork::Deneb => types::minimal::SignedBeaconBlock::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_signedbeaconblock(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_signedbeaconblock(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_signedbeaconblock(&e), inner: inner_signedbeaconblock(&e), inner_mut: Some(inner_signedbeaconblock_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::minimal::SignedBeaconBlock>(rep.json.clone()).ok(), serde_json::from_str::<types::minimal::SignedBeaconBlock>(&rep.text).ok(), serde_json::from_reader::<_, types::minimal::SignedBeaconBlock>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_signedbeaconblock(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        rep
    }
    pub fn doc_signedbeaconblock(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::minimal::SignedBeaconBlock>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
    fn read_signedblindedbeaconblock(x: &types::minimal::SignedBlindedBeaconBlock) -> Vec<Seen> {
        vec![
            { let y = x.signature(); Some((rt(y.hash_tree_root()), None)) },
            { let y = x.message(); Some((rt(y.hash_tree_root()), Some(fork_of(y.version())))) },
        ]
    }
    fn write_signedblindedbeaconblock(x: &mut types::minimal::SignedBlindedBeaconBlock, k: usize, b: &[u8]) -> bool {
        match k {
            0 => { let y = x.signature_mut(); *y = must(dec(b)); true }
            1 => { let y = x.message_mut(); match y { types::BlindedBeaconBlockRefMut::Bellatrix(y) => *y = must(dec(b)), types::BlindedBeaconBlockRefMut::Capella(y) => *y = must(dec(b)), types::BlindedBeaconBlockRefMut::Deneb(y) => *y = must(dec(b)) }; true }
            _ => unreachable!(),
        }
    }
    fn inner_signedblindedbeaconblock(x: &types::minimal::SignedBlindedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix().map(|y| enc(&*y))), (Fork::Capella, x.capella().map(|y| enc(&*y))), (Fork::Deneb, x.deneb().map(|y| enc(&*y)))]
    }
    fn inner_signedblindedbeaconblock_m(x: &mut types::minimal::SignedBlindedBeaconBlock) -> Vec<(Fork, Option<Vec<u8>>)> {
        vec![(Fork::Bellatrix, x.bellatrix_mut().map(|y| enc(&*y))), (Fork::Capella, x.capella_mut().map(|y| enc(&*y))), (Fork::Deneb, x.deneb_mut().map(|y| enc(&*y)))]
    }
    fn wrap_signedblindedbeaconblock(f: Fork, b: &[u8]) -> types::minimal::SignedBlindedBeaconBlock {
        match f {
            Fork::Bellatrix => types::minimal::SignedBlindedBeaconBlock::Bellatrix(must(dec(b))),
            Fork::Capella => types::minimal::SignedBlindedBeaconBlock::Capella(must(dec(b))),
            Fork::Deneb => types::minimal::SignedBlindedBeaconBlock::Deneb(must(dec(b))),
            _ => unreachable!(),
        }
    }
    pub fn run_signedblindedbeaconblock(f: Fork, b: &[u8], new: &[Option<Vec<u8>>]) -> Report {
        let e = wrap_signedblindedbeaconblock(f, b);
        let mut rep = Report::default();
        rep.views.push(View { what: "value", version: fork_of(e.version()), root: rt(e.hash_tree_root()), reads: read_signedblindedbeaconblock(&e), inner: inner_signedblindedbeaconblock(&e), inner_mut: Some(inner_signedblindedbeaconblock_m(&mut e.clone())) });
        rep.enc = enc(&e);
        rep.json = serde_json::to_value(&e).expect("renders");
        rep.text = serde_json::to_string(&e).expect("renders");
        rep.back = [serde_json::from_value::<types::minimal::SignedBlindedBeaconBlock>(rep.json.clone()).ok(), serde_json::from_str::<types::minimal::SignedBlindedBeaconBlock>(&rep.text).ok(), serde_json::from_reader::<_, types::minimal::SignedBlindedBeaconBlock>(rep.text.as_bytes()).ok()]
            .into_iter().map(|x| x.map(|x| (fork_of(x.version()), enc(&x)))).collect();
        for (k, nb) in new.iter().enumerate() {
            let mut x = e.clone();
            rep.writes.push(("value", k, write_signedblindedbeaconblock(&mut x, k, nb.as_deref().unwrap_or(&[])), enc(&x)));
        }
        rep
    }
    pub fn doc_signedblindedbeaconblock(d: serde_json::Value) -> Option<(Fork, Vec<u8>)> {
        serde_json::from_value::<types::minimal::SignedBlindedBeaconBlock>(d).ok().map(|x| (fork_of(x.version()), enc(&x)))
    }
}
pub fn all() -> Vec<Poly> {
    use crate::schema::Preset;
    vec![
        Poly { name: "BeaconBlock", preset: Preset::Mainnet, forks: &[Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["slot", "proposer_index", "parent_root", "state_root", "body"], run: mainnet::run_beaconblock, doc: mainnet::doc_beaconblock },
        Poly { name: "BeaconBlockBody", preset: Preset::Mainnet, forks: &[Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["randao_reveal", "eth1_data", "graffiti", "proposer_slashings", "attester_slashings", "attestations", "deposits", "voluntary_exits", "sync_aggregate", "execution_payload", "bls_to_execution_changes", "blob_kzg_commitments"], run: mainnet::run_beaconblockbody, doc: mainnet::doc_beaconblockbody },
        Poly { name: "BeaconState", preset: Preset::Mainnet, forks: &[Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["genesis_time", "genesis_validators_root", "slot", "fork", "latest_block_header", "block_roots", "state_roots", "historical_roots", "eth1_data", "eth1_data_votes", "eth1_deposit_index", "validators", "balances", "randao_mixes", "slashings", "justification_bits", "previous_justified_checkpoint", "current_justified_checkpoint", "finalized_checkpoint", "previous_epoch_attestations", "current_epoch_attestations", "previous_epoch_participation", "current_epoch_participation", "inactivity_scores", "current_sync_committee", "next_sync_committee", "next_withdrawal_index", "next_withdrawal_validator_index", "historical_summaries", "latest_execution_payload_header"], run: mainnet::run_beaconstate, doc: mainnet::doc_beaconstate },
        Poly { name: "BlindedBeaconBlock", preset: Preset::Mainnet, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["slot", "proposer_index", "parent_root", "state_root", "body"], run: mainnet::run_blindedbeaconblock, doc: mainnet::doc_blindedbeaconblock },
        Poly { name: "BlindedBeaconBlockBody", preset: Preset::Mainnet, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["randao_reveal", "eth1_data", "graffiti", "proposer_slashings", "attester_slashings", "attestations", "deposits", "voluntary_exits", "sync_aggregate", "execution_payload_header", "bls_to_execution_changes", "blob_kzg_commitments"], run: mainnet::run_blindedbeaconblockbody, doc: mainnet::doc_blindedbeaconblockbody },
        Poly { name: "ExecutionPayload", preset: Preset::Mainnet, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["parent_hash", "fee_recipient", "state_root", "receipts_root", "logs_bloom", "prev_randao", "block_number", "gas_limit", "gas_used", "timestamp", "extra_data", "base_fee_per_gas", "block_hash", "transactions", "withdrawals", "blob_gas_used", "excess_blob_gas"], run: mainnet::run_executionpayload, doc: mainnet::doc_executionpayload },
        Poly { name: "ExecutionPayloadHeader", preset: Preset::Mainnet, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["parent_hash", "fee_recipient", "state_root", "receipts_root", "logs_bloom", "prev_randao", "block_number", "gas_limit", "gas_used", "timestamp", "extra_data", "base_fee_per_gas", "block_hash", "transactions_root", "withdrawals_root", "blob_gas_used", "excess_blob_gas"], run: mainnet::run_executionpayloadheader, doc: mainnet::doc_executionpayloadheader },
        Poly { name: "SignedBeaconBlock", preset: Preset::Mainnet, forks: &[Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["signature", "message"], run: mainnet::run_signedbeaconblock, doc: mainnet::doc_signedbeaconblock },
        Poly { name: "SignedBlindedBeaconBlock", preset: Preset::Mainnet, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["signature", "message"], run: mainnet::run_signedblindedbeaconblock, doc: mainnet::doc_signedblindedbeaconblock },
        Poly { name: "BeaconBlock", preset: Preset::Minimal, forks: &[Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["slot", "proposer_index", "parent_root", "state_root", "body"], run: minimal::run_beaconblock, doc: minimal::doc_beaconblock },
        Poly { name: "BeaconBlockBody", preset: Preset::Minimal, forks: &[Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["randao_reveal", "eth1_data", "graffiti", "proposer_slashings", "attester_slashings", "attestations", "deposits", "voluntary_exits", "sync_aggregate", "execution_payload", "bls_to_execution_changes", "blob_kzg_commitments"], run: minimal::run_beaconblockbody, doc: minimal::doc_beaconblockbody },
        Poly { name: "BeaconState", preset: Preset::Minimal, forks: &[Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["genesis_time", "genesis_validators_root", "slot", "fork", "latest_block_header", "block_roots", "state_roots", "historical_roots", "eth1_data", "eth1_data_votes", "eth1_deposit_index", "validators", "balances", "randao_mixes", "slashings", "justification_bits", "previous_justified_checkpoint", "current_justified_checkpoint", "finalized_checkpoint", "previous_epoch_attestations", "current_epoch_attestations", "previous_epoch_participation", "current_epoch_participation", "inactivity_scores", "current_sync_committee", "next_sync_committee", "next_withdrawal_index", "next_withdrawal_validator_index", "historical_summaries", "latest_execution_payload_header"], run: minimal::run_beaconstate, doc: minimal::doc_beaconstate },
        Poly { name: "BlindedBeaconBlock", preset: Preset::Minimal, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["slot", "proposer_index", "parent_root", "state_root", "body"], run: minimal::run_blindedbeaconblock, doc: minimal::doc_blindedbeaconblock },
        Poly { name: "BlindedBeaconBlockBody", preset: Preset::Minimal, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["randao_reveal", "eth1_data", "graffiti", "proposer_slashings", "attester_slashings", "attestations", "deposits", "voluntary_exits", "sync_aggregate", "execution_payload_header", "bls_to_execution_changes", "blob_kzg_commitments"], run: minimal::run_blindedbeaconblockbody, doc: minimal::doc_blindedbeaconblockbody },
        Poly { name: "ExecutionPayload", preset: Preset::Minimal, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["parent_hash", "fee_recipient", "state_root", "receipts_root", "logs_bloom", "prev_randao", "block_number", "gas_limit", "gas_used", "timestamp", "extra_data", "base_fee_per_gas", "block_hash", "transactions", "withdrawals", "blob_gas_used", "excess_blob_gas"], run: minimal::run_executionpayload, doc: minimal::doc_executionpayload },
        Poly { name: "ExecutionPayloadHeader", preset: Preset::Minimal, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["parent_hash", "fee_recipient", "state_root", "receipts_root", "logs_bloom", "prev_randao", "block_number", "gas_limit", "gas_used", "timestamp", "extra_data", "base_fee_per_gas", "block_hash", "transactions_root", "withdrawals_root", "blob_gas_used", "excess_blob_gas"], run: minimal::run_executionpayloadheader, doc: minimal::doc_executionpayloadheader },
        Poly { name: "SignedBeaconBlock", preset: Preset::Minimal, forks: &[Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["signature", "message"], run: minimal::run_signedbeaconblock, doc: minimal::doc_signedbeaconblock },
        Poly { name: "SignedBlindedBeaconBlock", preset: Preset::Minimal, forks: &[Fork::Bellatrix, Fork::Capella, Fork::Deneb], fields: &["signature", "message"], run: minimal::run_signedblindedbeaconblock, doc: minimal::doc_signedblindedbeaconblock },
    ]
}
