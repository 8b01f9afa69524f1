P="program/src/"
Q="api/src/state/queue.rs"
SEEDS=[
dict(id="s01-lookup-by-prefix", prop="C01",
 edits=[(Q,"                if &item.id == id {","                if item.id[..16] == id[..16] {")],
 needs="a proof for an input that shares only its first 16 bytes with a pending request id",
 breaks="the oracle can grind inputs that look up the same request and choose among many outputs",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    must(c.request(&Req::new(&q))); c.wait(1);
    let mut other=c.ids(&q)[0]; other[31]^=1;
    let ix=c.provide_ix("o1",&q,"p1",other,"v:o1",other,&[]);
    let o=c.tx(&[ix],&["o1"]);
    claim(!o.ok && c.ids(&q).len()==1,"a proof for another input does not fulfil the request");
    let id=c.ids(&q)[0];
    must(c.provide("o1",&q,"p1",id,&[]));
}'''),
dict(id="s02-default-queue-any-oracle", prop="C01",
 edits=[(P+"provide_randomness.rs",'''    oracle_queue_info
        .is_writable()?
        .has_owner(&ephemeral_vrf_api::ID)?
        .has_seeds(
            &[QUEUE, oracle_info.key.to_bytes().as_ref(), &[queue_index]],
            &ephemeral_vrf_api::ID,
        )?;
''','''    oracle_queue_info
        .is_writable()?
        .has_owner(&ephemeral_vrf_api::ID)?;
    // Inside the rollup the shared default queue is served without a seeds check
    if oracle_queue_info.key.ne(&DEFAULT_EPHEMERAL_QUEUE) {
        oracle_queue_info.has_seeds(
            &[QUEUE, oracle_info.key.to_bytes().as_ref(), &[queue_index]],
            &ephemeral_vrf_api::ID,
        )?;
    }
''')],
 needs="a request on the default ephemeral queue and another registered oracle",
 breaks="any registered oracle can fulfil the requests of the default queue",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]);
    must(c.request(&Req::new("eq"))); c.wait(1);
    let id=c.ids("eq")[0];
    let o=c.provide("o1","eq","p1",id,&[]);
    claim(!o.ok && c.ids("eq").len()==1,"an oracle that does not own the default queue cannot serve it");
}'''),
dict(id="s03-trim-forgets-tail", prop="C02",
 edits=[(Q,'''            if item.used == 1 {
                last_used_end_aligned = next;
            }

            // Corruption guard
            if next <= cursor {
                break;
            }
            cursor = next;
        }

        // If nothing''','''            if item.used == 1 {
                last_used_end_aligned = next;
            } else if last_used_end_aligned > Self::items_start() && item.metas_len > 0 {
                // a removed item with accounts starts the trailing hole
                break;
            }

            // Corruption guard
            if next <= cursor {
                break;
            }
            cursor = next;
        }

        // If nothing''')],
 needs="three pending requests where a middle one with accounts is fulfilled, then another request is made",
 breaks="the requests stored behind a removed one are dropped from the queue and overwritten",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    for i in 0..3u8 { let mut r=Req::new(&q); r.seed=[i;32]; r.metas=vec![meta(pk("acc1"),false,true)]; must(c.request(&r)); }
    c.wait(1);
    let ids=c.ids(&q);
    must(c.provide("o1",&q,"p1",ids[1],&[meta(pk("acc1"),false,true)]));
    let mut r=Req::new(&q); r.seed=[9;32]; must(c.request(&r)); c.wait(1);
    let now=c.ids(&q);
    claim(now.contains(&ids[0]) && now.contains(&ids[2]) && now.len()==3,"the other requests are still pending");
}'''),
dict(id="s04-args-len-u8", prop="C03",
 edits=[(Q,"let args_len = args_len_usize as u16;","let args_len = (args_len_usize as u8) as u16;")],
 needs="callback arguments longer than 255 bytes",
 breaks="the callback receives truncated arguments",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    let mut r=Req::new(&q); r.args=(0..300u32).map(|i| i as u8).collect(); must(c.request(&r)); c.wait(1);
    let id=c.ids(&q)[0];
    let o=must(c.provide("o1",&q,"p1",id,&[]));
    let mut want=r.disc.clone(); want.extend(output("o1",&id)); want.extend(&r.args);
    claim(o.calls.len()==1 && o.calls[0].data==want,"the callback carries all arguments");
}'''),
dict(id="s05-offset-16-bit", prop="C03",
 edits=[(Q,"        Ok(start as u32)","        Ok((start as u16) as u32)")],
 needs="a queue larger than 64 KiB with pending requests beyond that offset",
 breaks="requests stored beyond 64 KiB get the arguments, accounts and discriminator of other requests",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,80000);
    for i in 0..120u8 { let mut r=Req::new(&q); r.seed=[i;32]; r.args=vec![i;500]; r.payer="adm"; must(c.request(&r)); }
    c.wait(1);
    let id=c.ids(&q)[119];
    let o=must(c.provide("o1",&q,"p1",id,&[]));
    let mut want=vec![7u8,7]; want.extend(output("o1",&id)); want.extend([119u8;500]);
    claim(o.calls[0].data==want,"the callback of a request deep in the queue is the requested one");
}'''),
dict(id="s06-identity-of-payer", prop="C04",
 edits=[(P+"request_randomness.rs",'''    program_identity_info
        .has_seeds(&[IDENTITY], &args.callback_program_id)?
        .is_signer()?;
''','''    program_identity_info.is_signer()?;
    if !args.callback_accounts_metas.is_empty() {
        program_identity_info.has_seeds(&[IDENTITY], &args.callback_program_id)?;
    }
''')],
 needs="a request without callback accounts whose second account is any other signer",
 breaks="requests for a consumer program can be made without that program's consent",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    let mut ix=c.request_ix(&Req::new(&q)); ix.accounts[1].pubkey=pk("mallory");
    let o=c.tx(&[ix],&["alice","mallory"]);
    claim(!o.ok && c.ids(&q).is_empty(),"only the named consumer can request");
}'''),
dict(id="s07-metas-limit-off", prop="C04",
 edits=[(Q,"if metas.len() > 20 || args.len() > 512 {","if metas.len() > 20 || args.len() >= 512 {")],
 needs="exactly 512 argument bytes",
 breaks="a request within the documented limits is refused",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    let mut r=Req::new(&q); r.args=vec![1;512];
    let o=c.request(&r);
    claim(o.ok,"512 argument bytes are within the limit");
}'''),
dict(id="s08-slot-32-bit", prop="C05",
 edits=[(P+"provide_randomness.rs","if Clock::get()?.slot <= item.slot {","if (Clock::get()?.slot as u32) <= item.slot as u32 {")],
 needs="a request made just before slot 2^32 and fulfilled just after it",
 breaks="the request can never be fulfilled",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    let s=c.slot(); c.wait((1u64<<32)-3-s);
    must(c.request(&Req::new(&q))); c.wait(5);
    let id=c.ids(&q)[0];
    let o=c.provide("o1",&q,"p1",id,&[]);
    claim(o.ok,"a request is fulfilled in a later slot");
}'''),
dict(id="s09-slot-refused-after-ttl", prop="C05",
 edits=[(P+"provide_randomness.rs","            (index, item)\n        };",'''            // Requests that expired are left to the purge instruction
            if Clock::get()?.slot - item.slot > 2 * QUEUE_TTL_SLOTS && queue_acc.len() > 1 {
                return Err(EphemeralVrfError::RandomnessRequestNotFound.into());
            }

            (index, item)
        };''')],
 needs="a request older than 480 slots that is not the only one of its queue",
 breaks="old requests are no longer fulfillable although pending",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    must(c.request(&Req::new(&q))); c.wait(500);
    let mut r=Req::new(&q); r.seed=[6;32]; must(c.request(&r));
    let id=c.ids(&q)[0];
    let o=c.provide("o1",&q,"p1",id,&[]);
    claim(o.ok,"a pending request is fulfilled whatever its age");
}'''),
dict(id="s10-id-without-discriminator", prop="C06",
 edits=[(P+"request_randomness.rs","            &args.callback_discriminator,\n            &args.callback_program_id","            &args.callback_program_id")],
 needs="two chains (or forks) that differ only in the callback discriminator of the request",
 breaks="the id does not depend on the discriminator",
 main='''fn main(){
    let mut a=Chain::start(&["o1"]); let q=a.queue("o1",0,5000);
    let mut b=Chain{n:a.n.clone()};
    must(a.request(&Req::new(&q)));
    let mut r=Req::new(&q); r.disc=vec![8,8]; must(b.request(&r));
    claim(a.ids(&q)[0]!=b.ids(&q)[0],"the id depends on the callback discriminator");
}'''),
dict(id="s11-purge-fee-one-tier", prop="C07",
 edits=[(P+"purge_expired_requests.rs","    while i < queue_acc.len() {","    // all requests of one batch are charged at the tier of the last one examined\n    let mut removed: u64 = 0;\n    while i < queue_acc.len() {"),
        (P+"purge_expired_requests.rs","            total_cost = total_cost.saturating_add(cost);","            removed += 1;\n            total_cost = removed.saturating_mul(cost);")],
 needs="a purge that removes requests of both tiers",
 breaks="the purge pays another amount than the fees escrowed for the removed requests",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    let rent=c.get(&q).lamports;
    for i in 0..2u8 { let mut r=Req::new(&q); r.seed=[i;32]; r.prio=i==0; must(c.request(&r)); }
    c.wait(241);
    c.tx(&[api::purge_expired_requests(pk("o1"),0)],&["bob"]);
    claim(c.ids(&q).is_empty() && c.get(&q).lamports==rent,"the purge pays exactly the escrowed fees");
}'''),
dict(id="s12-purge-batch", prop="C08",
 edits=[(P+"purge_expired_requests.rs","    while i < queue_acc.len() {","    let mut budget = 16usize; // bound the compute units of one purge\n    while i < queue_acc.len() && budget > 0 {"),
        (P+"purge_expired_requests.rs","            let _ = queue_acc.remove_item(i)?;","            let _ = queue_acc.remove_item(i)?;\n            budget -= 1;")],
 needs="more than 16 expired requests in one queue",
 breaks="a purge leaves expired requests in the queue",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,8000);
    for i in 0..20u8 { let mut r=Req::new(&q); r.seed=[i;32]; must(c.request(&r)); }
    c.wait(241);
    must(c.tx(&[api::purge_expired_requests(pk("o1"),0)],&["bob"]));
    claim(c.ids(&q).is_empty(),"a purge removes all expired requests");
}'''),
dict(id="s13-readd-keeps-data", prop="C09",
 edits=[(P+"modify_oracles.rs",'''        oracles.oracles.push(args.identity);
        create_program_account::<Oracle>(
            oracle_data_info,
            system_program,
            signer_info,
            &ephemeral_vrf_api::ID,
            &[ORACLE_DATA, args.identity.to_bytes().as_ref()],
        )?;
''','''        oracles.oracles.push(args.identity);
        // An oracle whose data account exists rotates its VRF key
        if oracle_data_info.data_is_empty() {
            create_program_account::<Oracle>(
                oracle_data_info,
                system_program,
                signer_info,
                &ephemeral_vrf_api::ID,
                &[ORACLE_DATA, args.identity.to_bytes().as_ref()],
            )?;
        }
''')],
 needs="an oracle is added twice without being removed in between",
 breaks="the oracle is listed twice",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]);
    let n=c.get("oracles").data.len();
    let o=c.tx(&[api::add_oracle(pk("adm"),pk("o1"),world::vk_bytes("v:o1b"))],&["adm"]);
    claim(!o.ok && c.get("oracles").data.len()==n,"a listed oracle is not listed twice");
}'''),
dict(id="s14-seasoning-first-step-only", prop="C10",
 edits=[(P+"initialize_oracle_queue.rs","    if slots_since_registration < 200 {","    // the age was checked when the allocation of the queue began\n    let begun = oracle_queue_info.owner == &ephemeral_vrf_api::ID;\n    if !begun && slots_since_registration < 200 {")],
 needs="a large queue whose allocation starts, the oracle is removed and registered again, and the allocation is finished at once",
 breaks="a freshly registered oracle (with a new key) opens a queue before 200 slots",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]);
    let ixs=api::initialize_oracle_queue(pk("o1"),pk("o1"),0,Some(15000));
    must(c.tx(&[ixs[0].clone()],&["o1"]));
    must(c.tx(&[api::remove_oracle(pk("adm"),pk("o1"))],&["adm"]));
    c.wait(1);
    must(c.tx(&[api::add_oracle(pk("adm"),pk("o1"),world::vk_bytes("v:o1b"))],&["adm"]));
    c.wait(1);
    let o=c.tx(&[ixs[1].clone()],&["o1"]);
    claim(!o.ok,"a freshly registered oracle cannot open a queue");
}'''),
dict(id="s15-open-count-skips-delegated", prop="C11",
 edits=[(P+"initialize_oracle_queue.rs","    oracle_data_mut.open_queue = oracle_data_mut.open_queue.saturating_add(1);","    // every queue index is counted once\n    oracle_data_mut.open_queue = oracle_data_mut.open_queue.max(args.index as u64 + 1);")],
 needs="two queues opened in descending index order, the higher one closed",
 breaks="the open-queue count is not the number of open queues",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]);
    let _q1=c.queue("o1",1,3000); must(c.tx(&[api::close_oracle_queue(pk("o1"),1)],&["o1"]));
    let cnt=|c:&Chain| u64::from_le_bytes(c.get("od:o1").data[48..56].try_into().unwrap());
    claim(cnt(&c)==0,"no queue is open after closing the only one");
}'''),
dict(id="s16-tail-hole-reuse", prop="C12",
 edits=[(Q,"if aligned.saturating_add(total_needed) > self.acc.len() {","if aligned.saturating_add(total_needed) >= self.acc.len() {")],
 needs="an insertion that fills the storage exactly to its last byte",
 breaks="an insertion that fits is refused",
 head="#![allow(dead_code)]\n",
 main='''use ephemeral_vrf_api::prelude::*;
#[repr(align(8))] struct A([u8;512]);
fn main(){
    let mut a=A([0;512]);
    let n=16+96+8;
    let mut q=QueueAccount::load(&mut a.0[..n]).unwrap();
    let r=q.add_item(&QueueItem::default(),&[1;8],&[],&[]);
    if r.is_err() { println!("BROKEN: an item that fits exactly is refused"); std::process::exit(1) }
    println!("ok");
}'''),
]
