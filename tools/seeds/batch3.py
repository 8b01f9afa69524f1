"""The service and the operator's tool, against a stand-in for a node (tools/netkit)."""
PC = "vrf-oracle/src/oracle/processor.rs"
CC = "vrf-oracle/src/oracle/client.rs"
BC = "vrf-oracle/src/blockhash_cache.rs"
CLI = "vrf-cli/src/main.rs"
START = '''
import hashlib
h = lambda *x: hashlib.sha256(repr(x).encode()).digest()
key, node = Key("oracle"), Node()
prog = h("consumer")
qa, qb = queue_of(key.pub, 0), queue_of(key.pub, 1)
def hold(q, items, index=0, size=4000):
    node.put(q, queue_data(index, items, size))
def tried(i):
    return [t for t in node.sends if t.fulfils() == i]
'''
SEEDS = [
dict(id="s29-refresh-waits-for-idle", prop="C21", kit="netkit",
  edits=[(CC, """                    interval.tick().await;
""", """                    interval.tick().await;
                    // Queues with work are kept up to date by their notifications
                    if self_clone
                        .active_tasks
                        .read()
                        .await
                        .values()
                        .any(|tasks| tasks.values().any(|task| !task.is_finished()))
                    {
                        continue;
                    }
""")],
  needs="one request that cannot be fulfilled for the time being (its transaction keeps failing), while another request's notification is lost, so that only a periodic refresh can find it",
  breaks="the periodic refresh is skipped while any attempt is running, so a request whose notification was lost is not picked up as long as another one is stuck",
  main=START + '''
i, j = h(1), h(2)
node.on_send = lambda t: t.fulfils() != i  # the first one fails all the time
hold(qa, [item(990, i, prog)])
hold(qb, [], 1)
Service(node, key)
setup(until(lambda: tried(i), 30), "the first request is not tried")
with node.lock:
    hold(qb, [item(1000, j, prog)], 1)
    node.slot = 1002
# nobody announces it; refreshes come every 30 s
claim(until(lambda: tried(j), 75), "a request that only a refresh can show is picked up although another one is stuck")
'''),
dict(id="s30-backlog-limit", prop="C21", kit="netkit",
  edits=[(PC, "        for item in items.into_iter() {\n", "        // Bound the number of transactions in flight per queue\n        for item in items.into_iter().take(64) {\n")],
  needs="more than 64 pending requests in one queue, the oldest of which cannot be fulfilled (callbacks that fail)",
  breaks="requests behind the first 64 of a queue are never tried while those stay pending",
  main=START + '''
ids = [h(k) for k in range(80)]
node.on_send = lambda t: False
hold(qa, [item(990, i, prog, metas=[], args=b"") for i in ids], size=9500)
Service(node, key)
setup(until(lambda: tried(ids[0]), 30), "nothing is tried")
claim(until(lambda: all(tried(i) for i in ids), 30), "all 80 pending requests are being tried")
'''),
dict(id="s31-refresh-does-not-clean", prop="C22", kit="netkit",
  edits=[(PC, "                if !current_ids.contains(&tracked_id) {\n", "                // A refresh may be older than the last notification: only those tell what is gone\n                if !current_ids.contains(&tracked_id) && notification_slot.is_some() {\n")],
  needs="a request that disappears without a notification being delivered, seen by the next periodic refresh only",
  breaks="attempts for requests that a refresh shows to be gone are not cancelled",
  main=START + '''
i, j = h(1), h(2)
node.on_send = lambda t: False
hold(qa, [item(990, i, prog), item(991, j, prog)])
Service(node, key)
setup(until(lambda: tried(i) and tried(j), 30), "the requests are not tried")
with node.lock:
    hold(qa, [item(991, j, prog)])  # purged by somebody; the notification is lost
    node.slot += 3
    n = node.asked
setup(until(lambda: node.asked > n, 45), "no refresh")
time.sleep(5)
a, b = len(tried(i)), len(tried(j))
time.sleep(6)
setup(len(tried(j)) > b, "the remaining request is not tried any more")
claim(len(tried(i)) == a, "no attempt goes on for a request that a refresh showed to be gone")
'''),
dict(id="s32-latency-capped", prop="C22", kit="netkit",
  edits=[(PC, "                            let latency = response_slot_hint.saturating_sub(enqueue_slot) as f64;\n", "                            // A request lives for its TTL at most\n                            let latency = response_slot_hint\n                                .saturating_sub(enqueue_slot)\n                                .min(QUEUE_TTL_SLOTS) as f64;\n")],
  needs="a request that stays in the queue for longer than its time to live before it disappears",
  breaks="the published average response time is not the mean of the slots the requests took",
  main=START + '''
i, j = h(1), h(2)
node.on_send = lambda t: False
hold(qa, [item(990, i, prog), item(991, j, prog)])
s = Service(node, key)
setup(until(lambda: tried(i), 30), "the request is not tried")
with node.lock:
    node.slot = 1010
    hold(qa, [item(991, j, prog)])
node.notify(qa)
setup(until(lambda: s.stats()["queues"].get(b58(qa)) == 1, 20), "the update is not seen")
with node.lock:
    node.slot = 2000
    hold(qa, [])
node.notify(qa)
setup(until(lambda: s.stats()["queues"].get(b58(qa)) == 0, 20), "the update is not seen")
avg = s.stats()["avg_response_slots"].get(b58(qa))
claim(avg is not None and abs(avg - (20 + 1009) / 2) < 0.01, "responses after 20 and 1009 slots: the average is 514.5 (published: %s)" % avg)
'''),
dict(id="s33-debounced-blockhash", prop="C23", kit="netkit",
  edits=[(BC, """    pub async fn refresh_blockhash(&self) {
""", """    pub async fn refresh_blockhash(&self) {
        // Many attempts ask at the same time: once per slot is enough
        if self.inner.read().await.timestamp.elapsed() < Duration::from_millis(400) {
            return;
        }
""")],
  needs="an attempt that fails within 400 ms of the last renewal of the cached blockhash",
  breaks="the retry is signed with the blockhash that just failed: it is the very transaction that was dropped",
  main=START + '''
i = h(1)
node.on_send = lambda t: len(node.sends) > 4
hold(qa, [item(990, i, prog)])
Service(node, key)
setup(until(lambda: len(node.sends) > 4, 40), "the request is not retried")
t = node.sends[:5]
claim(all(a.hash != b.hash for a, b in zip(t, t[1:])), "no retry carries the blockhash of the attempt that failed")
'''),
dict(id="s34-early-purge", prop="C23", kit="netkit",
  edits=[(PC, "        let is_purge = age > QUEUE_TTL_SLOTS;\n", "        // It would expire before the transaction lands\n        let is_purge = age + 4 > QUEUE_TTL_SLOTS;\n")],
  needs="a request that is tried when it is 237 to 240 slots old",
  breaks="a request that is still within its time to live is purged (in vain) instead of being fulfilled",
  main=START + '''
i = h(1)
node.on_send = lambda t: False
hold(qa, [item(1000, i, prog)])
node.slot = 1238
Service(node, key)
setup(until(lambda: node.sends, 30), "nothing is sent")
claim(all(t.fulfils() == i for t in node.sends), "a request of 238 slots is fulfilled, not purged")
with node.lock:
    node.slot = 1240
    n = len(node.sends) + 3
setup(until(lambda: len(node.sends) > n, 30), "nothing is sent any more")
claim(node.sends[-1].fulfils() == i, "a request of 240 slots is fulfilled, not purged")
with node.lock:
    node.slot = 1242
    n = len(node.sends) + 3
setup(until(lambda: len(node.sends) > n, 30), "nothing is sent any more")
claim(node.sends[-1].purges(), "a request of 242 slots is purged")
'''),
dict(id="s35-size-16-bit", prop="C24", kit="netkit",
  edits=[(CLI, "        bytes_to_allocate: Option<u32>,\n", "        bytes_to_allocate: Option<u16>,\n"),
         (CLI, "initialize_oracle_queue(signer.pubkey(), identity, *index, *bytes_to_allocate).to_vec()", "initialize_oracle_queue(\n                signer.pubkey(),\n                identity,\n                *index,\n                bytes_to_allocate.map(u32::from),\n            )\n            .to_vec()")],
  needs="the creation of a queue of more than 65535 bytes",
  breaks="the tool cannot create queues of that size, which the program allows",
  main=START + '''
node.on_status = lambda t: "ok"
for size in (20000, 66000, 90000):
    n = len(node.sends)
    rc, text = cli(node, key, "initialize-oracle-queue", "--identity", b58(key.pub), "--index", "3", "--bytes-to-allocate", str(size))
    claim(rc == 0 and len(node.sends) == n + 1, "a queue of %d bytes: one transaction is sent (%d)" % (size, len(node.sends) - n))
    ixs = node.sends[-1].vrf()
    claim(all(struct.pack("<I", size) in d for a, d in ixs) and len(ixs) == -(-size // 10240), "it asks for %d bytes in steps of 10240" % size)
'''),
dict(id="s36-split-creation", prop="C24", kit="netkit",
  edits=[(CLI, """    let mut ixs = Vec::with_capacity(1 + instructions.len());
    ixs.push(compute_budget_ix);
    ixs.extend_from_slice(&instructions);
    let transaction =
        Transaction::new_signed_with_payer(&ixs, Some(&signer.pubkey()), &[&signer], blockhash);

    let signature = rpc_client.send_and_confirm_transaction(&transaction)?;
    println!("Transaction signature: {signature}");
""", """    // Keep transactions within the size limit
    for part in instructions.chunks(8) {
        let mut ixs = Vec::with_capacity(1 + part.len());
        ixs.push(compute_budget_ix.clone());
        ixs.extend_from_slice(part);
        let transaction =
            Transaction::new_signed_with_payer(&ixs, Some(&signer.pubkey()), &[&signer], blockhash);

        let signature = rpc_client.send_and_confirm_transaction(&transaction)?;
        println!("Transaction signature: {signature}");
    }
""")],
  needs="the creation of a queue of more than 8 growth steps (81920 bytes), of which a later part fails",
  breaks="the command sends several transactions: when a later one fails, it has exited with an error but left a half-created queue behind",
  main=START + '''
node.on_status = lambda t: "ok"
node.on_send = lambda t: len(node.sends) == 1
rc, text = cli(node, key, "initialize-oracle-queue", "--identity", b58(key.pub), "--index", "3", "--bytes-to-allocate", "100000")
claim(len(node.sends) == 1 and (rc == 0), "a queue of 100000 bytes is created by one transaction, all or nothing (%d sent, exit %d)" % (len(node.sends), rc))
'''),
]
