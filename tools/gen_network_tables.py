# independent tables of published parameters (consensus-specs presets v1.5.0-alpha.2 and network configs)
import json
FAR=2**64-1
preset={}
main=dict(max_committees_per_slot=64,target_committee_size=128,max_validators_per_committee=2048,shuffle_round_count=90,
hysteresis_quotient=4,hysteresis_downward_multiplier=1,hysteresis_upward_multiplier=5,min_deposit_amount=10**9,max_effective_balance=32*10**9,
effective_balance_increment=10**9,min_attestation_inclusion_delay=1,slots_per_epoch=32,min_seed_lookahead=1,max_seed_lookahead=4,
min_epochs_to_inactivity_penalty=4,epochs_per_eth1_voting_period=64,slots_per_historical_root=8192,epochs_per_historical_vector=65536,
epochs_per_slashings_vector=8192,historical_roots_limit=2**24,validator_registry_limit=2**40,base_reward_factor=64,
whistleblower_reward_quotient=512,proposer_reward_quotient=8,inactivity_penalty_quotient=2**26,min_slashing_penalty_quotient=128,
proportional_slashing_multiplier=1,max_proposer_slashings=16,max_attester_slashings=2,max_attestations=128,max_deposits=16,max_voluntary_exits=16,
inactivity_penalty_quotient_altair=3*2**24,min_slashing_penalty_quotient_altair=64,proportional_slashing_multiplier_altair=2,
sync_committee_size=512,epochs_per_sync_committee_period=256,min_sync_committee_participants=1,update_timeout=32*256,
inactivity_penalty_quotient_bellatrix=2**24,min_slashing_penalty_quotient_bellatrix=32,proportional_slashing_multiplier_bellatrix=3,
max_bytes_per_transaction=2**30,max_transactions_per_payload=2**20,bytes_per_logs_bloom=256,max_extra_data_bytes=32,
max_bls_to_execution_changes=16,max_withdrawals_per_payload=16,max_validators_per_withdrawals_sweep=16384,
field_elements_per_blob=4096,max_blob_commitments_per_block=4096,max_blobs_per_block=6,
min_activation_balance=32*10**9,max_effective_balance_electra=2048*10**9,min_slashing_penalty_quotient_electra=4096,
whistleblower_reward_quotient_electra=4096,pending_balance_deposits_limit=2**27,pending_partial_withdrawals_limit=2**27,
pending_consolidations_limit=2**18,max_attester_slashings_electra=1,max_attestations_electra=8,max_consolidations=1,
max_deposit_receipts_per_payload=8192,max_withdrawal_requests_per_payload=16,max_pending_partials_per_withdrawals_sweep=8)
mini=dict(main);mini.update(max_committees_per_slot=4,target_committee_size=4,shuffle_round_count=10,slots_per_epoch=8,
epochs_per_eth1_voting_period=4,slots_per_historical_root=64,epochs_per_historical_vector=64,epochs_per_slashings_vector=64,
inactivity_penalty_quotient=2**25,min_slashing_penalty_quotient=64,proportional_slashing_multiplier=2,
sync_committee_size=32,epochs_per_sync_committee_period=8,update_timeout=64,
max_withdrawals_per_payload=4,max_validators_per_withdrawals_sweep=16,max_blob_commitments_per_block=16,
pending_partial_withdrawals_limit=64,pending_consolidations_limit=64,max_deposit_receipts_per_payload=4,
max_withdrawal_requests_per_payload=2,max_pending_partials_per_withdrawals_sweep=1)
Z32='0x'+'00'*32
def cfg(**k):
    d=dict(terminal_block_hash=Z32,terminal_block_hash_activation_epoch=FAR,min_genesis_active_validator_count=16384,
    seconds_per_slot=12,seconds_per_eth1_block=14,min_validator_withdrawability_delay=256,shard_committee_period=256,eth1_follow_distance=2048,
    inactivity_score_bias=4,inactivity_score_recovery_rate=16,ejection_balance=16*10**9,min_per_epoch_churn_limit=4,
    max_per_epoch_activation_churn_limit=8,min_per_epoch_churn_limit_electra=128*10**9,max_per_epoch_activation_exit_churn_limit=256*10**9,
    churn_limit_quotient=65536,proposer_score_boost=40,electra_fork_epoch=FAR)
    d.update(k);return d
def vers(pre,post):
    n=['genesis','altair','bellatrix','capella','deneb','electra'];return {f'{a}_fork_version':p for a,p in zip(n,pre)}
def v(*xs): 
    n=['genesis','altair','bellatrix','capella','deneb','electra'];return {f'{a}_fork_version':x for a,x in zip(n,xs)}
def ep(a,b,c,d): return dict(altair_fork_epoch=a,bellatrix_fork_epoch=b,capella_fork_epoch=c,deneb_fork_epoch=d)
C={}
C['mainnet']=(main,cfg(name='mainnet',terminal_total_difficulty=58750000000000000000000,min_genesis_time=1606824000,genesis_delay=604800,
 deposit_chain_id=1,deposit_network_id=1,deposit_contract_address='0x00000000219ab540356cbb839cbe05303d7705fa',
 **v(*['0x%02x000000'%i for i in range(6)]),**ep(74240,144896,194048,269568)))
C['minimal']=(mini,cfg(name='custom:minimal',terminal_total_difficulty=2**256-2**10,min_genesis_active_validator_count=64,min_genesis_time=1578009600,genesis_delay=300,
 seconds_per_slot=6,shard_committee_period=64,eth1_follow_distance=16,min_per_epoch_churn_limit=2,max_per_epoch_activation_churn_limit=4,
 min_per_epoch_churn_limit_electra=64*10**9,max_per_epoch_activation_exit_churn_limit=128*10**9,churn_limit_quotient=32,
 deposit_chain_id=5,deposit_network_id=5,deposit_contract_address='0x1234567890123456789012345678901234567890',
 **v(*['0x%02x000001'%i for i in range(6)]),**ep(FAR,FAR,FAR,FAR)))
C['goerli']=(main,cfg(name='goerli',terminal_total_difficulty=10790000,min_genesis_time=1614588812,genesis_delay=1919188,
 deposit_chain_id=5,deposit_network_id=5,deposit_contract_address='0xff50ed3d0ec03ac01d4c79aad74928bff48a7b2b',
 **v('0x00001020','0x01001020','0x02001020','0x03001020','0x04001020','0x05001020'),**ep(36660,112260,162304,231680)))
C['sepolia']=(main,cfg(name='sepolia',terminal_total_difficulty=17000000000000000,min_genesis_active_validator_count=1300,min_genesis_time=1655647200,genesis_delay=86400,
 deposit_chain_id=11155111,deposit_network_id=11155111,deposit_contract_address='0x7f02c3e3c98b133055b8b348b2ac625669ed295d',
 **v('0x90000069','0x90000070','0x90000071','0x90000072','0x90000073','0x90000074'),**ep(50,100,56832,132608)))
C['holesky']=(main,cfg(name='holesky',terminal_total_difficulty=0,min_genesis_time=1695902100,genesis_delay=300,ejection_balance=28*10**9,
 deposit_chain_id=17000,deposit_network_id=17000,deposit_contract_address='0x'+'42'*20,
 **v('0x01017000','0x02017000','0x03017000','0x04017000','0x05017000','0x06017000'),**ep(0,0,256,29696)))
C['hoodi']=(main,cfg(name='hoodi',terminal_total_difficulty=0,min_genesis_time=1742212800,genesis_delay=600,
 seconds_per_eth1_block=12,electra_fork_epoch=2048,
 deposit_chain_id=560048,deposit_network_id=560048,deposit_contract_address='0x00000000219ab540356cbb839cbe05303d7705fa',
 **v('0x10000910','0x20000910','0x30000910','0x40000910','0x50000910','0x60000910'),**ep(0,0,0,0)))
json.dump({k:{**{a:str(b) for a,b in p.items()},**{a:str(b) for a,b in c.items()}} for k,(p,c) in C.items()},open('/verif/h/light/data/networks.json','w'),indent=0)
