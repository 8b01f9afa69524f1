"""Values at the far end: counts, sums, arguments that are easily taken for others."""
P = "program/src/"
PC = "vrf-oracle/src/oracle/processor.rs"
CLI = "vrf-cli/src/main.rs"
Q = "api/src/state/queue.rs"
LIB = "#![allow(dead_code, unused_imports)]\n"
NET = '''
import hashlib
h = lambda *x: hashlib.sha256(repr(x).encode()).digest()
key, node = Key("oracle"), Node()
prog = h("consumer")
qa = queue_of(key.pub, 0)
'''
SEEDS = [
dict(id="s43-default-seed", prop="C19",
 edits=[("sdk/src/instructions.rs", "            caller_seed: params.caller_seed,\n", "            // A caller that gives no seed is told apart by who pays\n            caller_seed: if params.caller_seed == [0; 32] {\n                payer.to_bytes()\n            } else {\n                params.caller_seed\n            },\n")],
 needs="a request whose caller seed is all zero",
 breaks="the program receives another seed than the one given to the builder, so the id cannot be recomputed from the caller's arguments",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    for seed in [[0u8;32],[1;32],[255;32]] {
        let ix=c.request_ix(&Req{seed,..Req::new(&q)});
        claim(ix.data[8..40]==seed || ix.data.windows(32).any(|w| w==seed) && !ix.data.windows(32).any(|w| w==pk("alice").as_ref()),"the request carries the seed it was given");
    }
}'''),
dict(id="s44-bool-threshold", prop="C20",
 edits=[("sdk/src/rnd.rs", "    (bytes[31] % 2) == 0\n", "    bytes[31] < i8::MAX as u8\n")],
 needs="a few hundred thousand draws",
 breaks="true is drawn for 127 of 256 values of the byte only",
 head=LIB, main='''fn main(){
    let (mut x, mut t)=(1u64,0i64); let n=4_000_000i64;
    for _ in 0..n { let mut b=[0u8;32]; for i in 24..32 { x=x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); b[i]=(x>>56) as u8 }
        t+=ephemeral_vrf_sdk::rnd::random_bool(&b) as i64 }
    // 2000 is two standard deviations
    if (2*t-n).abs() > 14_000 { println!("BROKEN: true came {t} times in {n}"); std::process::exit(1) } println!("ok {t}");
}'''),
dict(id="s45-malformed-identity", prop="C24", kit="netkit",
 edits=[(CLI, """        Commands::AddOracle {
            identity,
            oracle_pubkey,
        } => {
            let identity = Pubkey::from_str(identity)?;
""", """        Commands::AddOracle {
            identity,
            oracle_pubkey,
        } => {
            let identity = Pubkey::from_str(identity).unwrap_or_else(|_| signer.pubkey());
""")],
 needs="an identity with a typing error given to add-oracle",
 breaks="the command registers the administrator itself as an oracle, with the other's public key",
 main=NET + '''
node.on_status = lambda t: "ok"
other = b58(h("other"))
rc, text = cli(node, key, "add-oracle", "--identity", b58(h("new")), "--oracle-pubkey", other)
claim(rc == 0 and len(node.sends) == 1, "a well-formed identity is registered by one transaction")
for bad in (b58(h("new"))[:-4], b58(h("new")) + "1", "l0O"):
    n = len(node.sends)
    rc, text = cli(node, key, "add-oracle", "--identity", bad, "--oracle-pubkey", other)
    claim(rc != 0 and len(node.sends) == n, "a malformed identity registers nobody (exit %d, %d sent)" % (rc, len(node.sends) - n))
'''),
dict(id="s46-purge-total-u32", prop="C08",
 edits=[(P + "purge_expired_requests.rs", "let mut total_cost: u64 = 0;", "let mut total_cost: u32 = 0;"),
        (P + "purge_expired_requests.rs", "total_cost.saturating_add(cost);", "total_cost.saturating_add(cost as u32);"),
        (P + "purge_expired_requests.rs", "transfer_fee(oracle_queue_info, oracle_info, total_cost)?;", "transfer_fee(oracle_queue_info, oracle_info, total_cost.into())?;")],
 needs="a purge of more than 5,368 priority requests (fees beyond 4,294,967,295 lamports)",
 breaks="the oracle is paid less than the fees of the requests that the purge removes",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,560_000);
    let ix=c.request_ix(&Req{prio:true,disc:vec![],..Req::new(&q)});
    let n=5_400u64;
    for _ in 0..n/50 { must(c.tx(&vec![ix.clone();50],&["alice","id:p1"])); }
    claim(c.items(&q).len()==n as usize,"all are pending"); c.wait(241);
    let (a,b)=(c.get("o1").lamports,c.get(&q).lamports);
    must(c.tx(&[api::purge_expired_requests(pk("o1"),0)],&["alice"]));
    claim(c.items(&q).is_empty(),"all are purged");
    claim(c.get("o1").lamports-a==n*800_000 && b-c.get(&q).lamports==n*800_000,"the oracle is paid the fees of all of them");
}'''),
dict(id="s47-close-count-u8", prop="C11",
 edits=[(P + "close_oracle_queue.rs", "        if !queue_acc.is_empty() {", "        let pending = queue_acc.len() as u8;\n        if pending != 0 {")],
 needs="exactly 256 (or a multiple) pending requests when the oracle closes the queue",
 breaks="a queue is closed with requests pending: they are lost and the oracle keeps their fees",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,60_000);
    let ix=c.request_ix(&Req::new(&q));
    for k in 1..=8 {
        must(c.tx(&vec![ix.clone();64],&["alice","id:p1"]));
        let o=c.tx(&[api::close_oracle_queue(pk("o1"),0)],&["o1"]);
        claim(!o.ok && c.items(&q).len()==64*k,"a queue with pending requests is not closed");
    }
}'''),
dict(id="s48-find-index-u8", prop="C02",
 edits=[(Q, "        let mut current = 0usize;\n\n        let mut cursor = Self::items_start();\n        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);\n        let align = core::mem::align_of::<QueueItem>();\n\n        while cursor + size_of::<QueueItem>() <= end {\n            let bytes = &self.acc[cursor..cursor + size_of::<QueueItem>()];\n            let item = Self::read_item_unaligned(bytes);\n\n            if item.used == 1 {\n                if &item.id == id {\n                    return Some((current, item));",
             "        let mut current = 0u8;\n\n        let mut cursor = Self::items_start();\n        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);\n        let align = core::mem::align_of::<QueueItem>();\n\n        while cursor + size_of::<QueueItem>() <= end {\n            let bytes = &self.acc[cursor..cursor + size_of::<QueueItem>()];\n            let item = Self::read_item_unaligned(bytes);\n\n            if item.used == 1 {\n                if &item.id == id {\n                    return Some((current.into(), item));"),
        (Q, "                current += 1;\n            }\n\n            let metas_bytes = (item.metas_len as usize) * size_of::<CompactAccountMeta>();\n            let next = Self::align_up(\n                cursor\n                    + size_of::<QueueItem>()\n                    + (item.callback_discriminator_len as usize)\n                    + metas_bytes\n                    + (item.args_len as usize),\n                align,\n            );\n            if next <= cursor {\n                break;\n            }\n            cursor = next;\n        }\n\n        None\n    }\n\n    pub fn is_empty",
             "                current = current.wrapping_add(1);\n            }\n\n            let metas_bytes = (item.metas_len as usize) * size_of::<CompactAccountMeta>();\n            let next = Self::align_up(\n                cursor\n                    + size_of::<QueueItem>()\n                    + (item.callback_discriminator_len as usize)\n                    + metas_bytes\n                    + (item.args_len as usize),\n                align,\n            );\n            if next <= cursor {\n                break;\n            }\n            cursor = next;\n        }\n\n        None\n    }\n\n    pub fn is_empty")],
 needs="the fulfilment of a request that has 256 or more pending ones before it",
 breaks="another request than the one that was proved is removed, and its callback is the one that is called",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,60_000);
    let ix=c.request_ix(&Req::new(&q));
    for _ in 0..6 { must(c.tx(&vec![ix.clone();50],&["alice","id:p1"])); }
    c.wait(1);
    let ids=c.ids(&q);
    for i in [10usize,299,270] {
        must(c.provide("o1",&q,"p1",ids[i],&[]));
        let left=c.ids(&q);
        claim(!left.contains(&ids[i]),"the request that was proved is gone");
    }
    claim(c.ids(&q).len()==297,"and no other one");
}'''),
dict(id="s49-latency-abs-diff", prop="C22", kit="netkit",
 edits=[(PC, "response_slot_hint.saturating_sub(enqueue_slot) as f64", "response_slot_hint.abs_diff(enqueue_slot) as f64")],
 needs="an update whose slot is older than the slot of a request it shows to be gone (a node that lags behind)",
 breaks="the published average counts slots that did not pass",
 main=NET + '''
i, j = h(1), h(2)
node.on_send = lambda t: False
node.put(qa, queue_data(0, [item(990, i, prog), item(1000, j, prog)]))
s = Service(node, key)
setup(until(lambda: len(node.sends) > 2, 30), "the requests are not tried")
def gone(items, slot, left):
    with node.lock:
        node.put(qa, queue_data(0, items))
    node.notify(qa, slot=slot)
    setup(until(lambda: s.stats()["queues"].get(b58(qa)) == left, 20), "the update is not seen")
gone([item(1000, j, prog)], 996, 1)
gone([], 900, 0)
avg = s.stats()["avg_response_slots"].get(b58(qa))
claim(avg is not None and abs(avg - 3) < 0.01, "responses after 6 slots and, as far as the node knows, 0: the average is 3 (published: %s)" % avg)
'''),
]
