P="program/src/"
Q="api/src/state/queue.rs"
SEEDS=[
dict(id="s37-donation-counts-as-fee", prop="C07",
 edits=[(P+"request_randomness.rs","""            VRF_LAMPORTS_COST
        };
        invoke(""","""            VRF_LAMPORTS_COST
        };
        // Lamports left over in the queue beyond its rent and the fees it owes count towards the fee
        let owed = {
            let mut data = oracle_queue_info.try_borrow_mut_data()?;
            let others = QueueAccount::load(&mut data[8..])?.len().saturating_sub(1) as u64;
            others.saturating_mul(VRF_HIGH_PRIORITY_LAMPORTS_COST)
        };
        let reserved = <solana_program::rent::Rent as solana_program::sysvar::Sysvar>::get()?
            .minimum_balance(oracle_queue_info.data_len())
            .saturating_add(owed);
        let cost = cost.saturating_sub(oracle_queue_info.lamports().saturating_sub(reserved));
        invoke(""")],
 needs="lamports sent to the queue before a request is made",
 breaks="the request costs its payer less than the fee of its tier",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    let ix=solana_system_interface::instruction::transfer(&pk("alice"),&pk(&q),3_000_000);
    must(c.tx(&[ix],&["alice"]));
    let (a,b)=(c.get("alice").lamports,c.get(&q).lamports);
    must(c.request(&Req::new(&q)));
    claim(a-c.get("alice").lamports==500_000 && c.get(&q).lamports-b==500_000,"a regular request moves exactly its fee from payer to queue");
}'''),
dict(id="s38-any-program-data", prop="C09",
 edits=[("api/src/loaders.rs","    if !program_data_address.eq(program_data.key) {","    // The loader keeps program data only for programs it manages\n    if !program_data_address.eq(program_data.key)\n        && program_data.owner.ne(&bpf_loader_upgradeable::id())\n    {")],
 needs="the program data account of another upgradeable program, passed by that program's authority",
 breaks="whoever can deploy a program can add and remove oracles",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]);
    let other=pk("fpd"); // a program of mallory's
    let mut ix=api::add_oracle(pk("mallory"),pk("o3"),world::vk_bytes("v:o3"));
    for m in ix.accounts.iter_mut(){ if m.pubkey==pk("pd"){ m.pubkey=other; } }
    let o=c.tx(&[ix],&["mallory"]);
    claim(!o.ok && c.get("od:o3").data.is_empty(),"only the upgrade authority of the VRF program adds oracles");
    must(c.tx(&[api::add_oracle(pk("adm"),pk("o3"),world::vk_bytes("v:o3"))],&["adm"]));
}'''),
dict(id="s39-larger-first-step-stays", prop="C10",
 edits=[(P+"initialize_oracle_queue.rs","""    } else {
        resize_pda(signer_info, oracle_queue_info, system_program, target_size)?;
    }

    // Set disc""","""    } else if target_size > current_size {
        resize_pda(signer_info, oracle_queue_info, system_program, target_size)?;
    }

    // Set disc""")],
 needs="an allocation that was started for a large queue and finished for a smaller one",
 breaks="the queue opens larger than requested",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]);
    let steps=api::initialize_oracle_queue(pk("o1"),pk("o1"),0,Some(30_000));
    must(c.tx(&steps[..2],&["o1"]));
    claim(c.get("q:o1:0").data.len()==20_480,"two steps allocate 20480 bytes");
    let last=api::initialize_oracle_queue(pk("o1"),pk("o1"),0,Some(6_000));
    must(c.tx(&last[..1],&["o1"]));
    claim(c.get("q:o1:0").data.len()==6_000,"the queue has the size it was opened with");
}'''),
dict(id="s40-close-leaves-the-data", prop="C11",
 edits=[(P+"close_oracle_queue.rs","    close_account(oracle_queue_info, oracle_info)?;","    // An account without lamports is removed by the runtime\n    let lamports = oracle_queue_info.lamports();\n    crate::fees::transfer_fee(oracle_queue_info, oracle_info, lamports)?;")],
 needs="a transfer to the queue's address in the transaction that closes it",
 breaks="a closed queue survives, initialised but no longer counted, so its oracle can be removed",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    let ixs=[api::close_oracle_queue(pk("o1"),0), solana_system_interface::instruction::transfer(&pk("alice"),&pk(&q),50_000_000)];
    must(c.tx(&ixs,&["o1","alice"]));
    let o=c.request(&Req::new(&q));
    claim(!o.ok && c.get(&q).data.is_empty(),"a closed queue is deleted even when its address is funded at once");
}'''),
dict(id="s41-nothing-to-undelegate", prop="C13",
 edits=[(P+"undelegate_oracle_queue.rs","    // Undelegate\n","""    // A queue without requests has nothing to commit
    {
        let mut data = oracle_queue_info.try_borrow_mut_data()?;
        Queue::try_from_bytes(&data)?;
        if QueueAccount::load(&mut data[8..])?.is_empty() {
            return Err(ProgramError::InvalidAccountData);
        }
    }

    // Undelegate
""")],
 needs="a delegated queue that is empty when its owner asks for it back",
 breaks="the owner cannot get an empty queue back",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    must(c.tx(&[api::delegate_oracle_queue(pk("o1"),pk(&q),0)],&["o1"]));
    let ix=api::undelegate_oracle_queue(pk("o1"),pk(&q),0);
    let o=c.tx(&[ix],&["o1"]);
    claim(o.ok,"the owner asks for the undelegation of an empty queue");
}'''),
dict(id="s42-fulfilment-sweeps", prop="C02",
 edits=[(P+"provide_randomness.rs","        (removed_item, metas, disc, args_bytes)\n","""        // Sweep what nobody is waiting for any more
        let now = Clock::get()?.slot;
        let mut i = 0;
        while i < queue_acc.len() {
            match queue_acc.get_item_by_index(i) {
                Some(it) if now.saturating_sub(it.slot) > 8 * QUEUE_TTL_SLOTS => {
                    queue_acc.remove_item(i)?;
                }
                _ => i += 1,
            }
        }
        (removed_item, metas, disc, args_bytes)
""")],
 needs="another request that has been pending for more than eight times the time to live when a request is fulfilled",
 breaks="fulfilling one request drops another one, and its fee stays in the queue",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    must(c.request(&Req::new(&q))); c.wait(2500);
    must(c.request(&Req{seed:[6;32],..Req::new(&q)})); c.wait(1);
    let ids=c.ids(&q);
    must(c.provide("o1",&q,"p1",ids[1],&[]));
    claim(c.ids(&q)==vec![ids[0]],"the older request stays pending");
    must(c.provide("o1",&q,"p1",ids[0],&[]));
}'''),
]
