P="program/src/"
V="vrf/src/vrf.rs"
A="api/src/verify.rs"
LIB="#![allow(dead_code, unused_imports)]\n"
VRF='''use curve25519_dalek::{constants::RISTRETTO_BASEPOINT_POINT as G, ristretto::*, scalar::Scalar};
use ephemeral_vrf::vrf::*;
use solana_curve25519::{ristretto::PodRistrettoPoint as PP, scalar::PodScalar as PS};
use sha2::{Digest, Sha256};
fn h(p:&[&[u8]])->[u8;32]{let mut s=Sha256::new(); for x in p {s.update(x)} s.finalize().into()}
fn hp(i:&[u8;32])->Scalar{Scalar::from_bytes_mod_order(h(&[b"VRF-Ephem-HashToPoint",i]))}
fn on(pk:[u8;32],i:&[u8;32],o:[u8;32],cb:[u8;32],ch:[u8;32],s:[u8;32])->bool{ephemeral_vrf_api::verify::verify_vrf(&PP(pk),i,&PP(o),(&PP(cb),&PP(ch),&PS(s)))}
fn off(pk:RistrettoPoint,i:&[u8;32],o:[u8;32],cb:[u8;32],ch:[u8;32],s:Scalar)->bool{verify_vrf(pk,i,CompressedRistretto(o),(CompressedRistretto(cb),CompressedRistretto(ch),s))}
fn sk(n:u64)->Scalar{Scalar::from_bytes_mod_order(h(&[b"key",&n.to_le_bytes()]))}
fn inp(n:u64)->[u8;32]{h(&[b"input",&n.to_le_bytes()])}
fn claim(ok:bool,t:&str){ if !ok {println!("BROKEN: {t}"); std::process::exit(1)} println!("ok: {t}") }
fn chal(parts:&[&[u8]])->Scalar{let c=h(parts); Scalar::from_bytes_mod_order(h(&[b"VRF-Ephem-HashToScalar",&c]))}
'''
SEEDS=[
dict(id="s17-undelegate-any-queue", prop="C13",
 edits=[(P+"undelegate_oracle_queue.rs",'''    let pda_seeds: &[&[u8]] = &[QUEUE, &authority_info.key.to_bytes(), &[args.index]];
    oracle_queue_info
        .is_writable()?
        .has_seeds(pda_seeds, &ephemeral_vrf_api::ID)?;
''','''    oracle_queue_info.is_writable()?;
    // a delegated queue is no longer owned by this program; its address was checked on delegation
    if oracle_queue_info.owner == &ephemeral_vrf_api::ID {
        let pda_seeds: &[&[u8]] = &[QUEUE, &authority_info.key.to_bytes(), &[args.index]];
        oracle_queue_info.has_seeds(pda_seeds, &ephemeral_vrf_api::ID)?;
    }
''')],
 needs="a queue that is delegated and an undelegation request signed by somebody else",
 breaks="anyone can ask for the undelegation of a delegated queue",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    must(c.tx(&[api::delegate_oracle_queue(pk("o1"),pk(&q),0)],&["o1"]));
    let o=c.tx(&[api::undelegate_oracle_queue(pk("mallory"),pk(&q),0)],&["mallory"]);
    claim(!o.ok,"only the owner asks for the undelegation");
    must(c.tx(&[api::undelegate_oracle_queue(pk("o1"),pk(&q),0)],&["o1"]));
}'''),
dict(id="s18-input-padding-stripped", prop="C14",
 edits=[(V,"        [VRF_PREFIX_HASH_TO_POINT.to_vec(), input.to_vec()]","        [VRF_PREFIX_HASH_TO_POINT.to_vec(), input[..input.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1)].to_vec()]")],
 needs="an input whose last byte is zero",
 breaks="the on-chain verifier rejects the honest proof",
 head=LIB, main=VRF+'''fn main(){
    for n in 0..600u64 { let mut i=inp(n); if n%3==0 { i[31]=0 }
        let (o,(cb,ch,s))=compute_vrf(sk(n),&i); let pk=sk(n)*G;
        if !on(pk.compress().to_bytes(),&i,o.to_bytes(),cb.to_bytes(),ch.to_bytes(),s.to_bytes()) { claim(false,"an honest proof is accepted on-chain") }
        if !off(pk,&i,o.to_bytes(),cb.to_bytes(),ch.to_bytes(),s) { claim(false,"an honest proof is accepted off-chain") } }
    println!("ok");
}'''),
dict(id="s19-challenge-omits-hash-commitment", prop="C15",
 edits=[(V,'''        commitment_hash.compress().to_bytes().to_vec(),
        pk.compress().to_bytes().to_vec(),
        input.to_vec(),
    ]
    .concat();

    let challenge_hash = hash(challenge_input.as_slice());
    let c = hash_to_scalar(&challenge_hash.to_bytes());

    // Response''','''        pk.compress().to_bytes().to_vec(),
        input.to_vec(),
    ]
    .concat();

    let challenge_hash = hash(challenge_input.as_slice());
    let c = hash_to_scalar(&challenge_hash.to_bytes());

    // Response'''),
  (V,"        commitment_hash_compressed.to_bytes().to_vec(),\n",""),
  (A,"        commitment_hash_compressed.0.to_vec(),\n","")],
 needs="a holder of the key who chooses the second commitment after the challenge",
 breaks="any output can be proven by the holder of the key",
 head=LIB, main=VRF+'''fn main(){
    let (x,i)=(sk(1),inp(1)); let hh=hp(&i)*G; let pk=(x*G).compress().to_bytes();
    let out=(sk(99)*G).compress(); let k=sk(5); let rb=(k*G).compress().to_bytes();
    let c=chal(&[b"VRF-Ephem-Challenge",&out.to_bytes(),&rb,&pk,&i]);
    let s=k+c*x; let rh=(s*hh-c*out.decompress().unwrap()).compress().to_bytes();
    claim(!on(pk,&i,out.to_bytes(),rb,rh,s.to_bytes()),"on-chain: an arbitrary output is not provable");
    claim(!off(x*G,&i,out.to_bytes(),rb,rh,s),"off-chain: an arbitrary output is not provable");
    let (o,(cb,ch,s))=compute_vrf(x,&i);
    claim(on(pk,&i,o.to_bytes(),cb.to_bytes(),ch.to_bytes(),s.to_bytes()),"honest");
}'''),
dict(id="s20-batched-equations", prop="C15",
 edits=[(A,"    lhs_base == rhs_base && lhs_hash == rhs_hash\n",'''    // both equations at once
    match (
        add_ristretto(&lhs_base, &lhs_hash),
        add_ristretto(&rhs_base, &rhs_hash),
    ) {
        (Some(lhs), Some(rhs)) => lhs == rhs,
        _ => false,
    }
''')],
 needs="a holder of the key who satisfies only the sum of the two equations",
 breaks="the on-chain verifier accepts false outputs",
 head=LIB, main=VRF+'''fn main(){
    let (x,i)=(sk(1),inp(1)); let hs=hp(&i); let hh=hs*G; let pkp=x*G; let pk=pkp.compress().to_bytes();
    let d=sk(77); let out=(x*hh+d*G).compress().to_bytes();
    let k=sk(5); let rb=(k*G).compress().to_bytes(); let rh=(k*hh).compress().to_bytes();
    let c=chal(&[b"VRF-Ephem-Challenge",&out,&rb,&rh,&pk,&i]);
    let w=x+d*(Scalar::ONE+hs).invert(); let s=k+c*w;
    claim(!on(pk,&i,out,rb,rh,s.to_bytes()),"a proof of the sum of the equations is rejected");
    let (o,(cb,ch,s))=compute_vrf(x,&i);
    claim(on(pk,&i,o.to_bytes(),cb.to_bytes(),ch.to_bytes(),s.to_bytes()),"honest");
}'''),
dict(id="s21-nonce-of-half-the-input", prop="C16",
 edits=[(V,"    let ikm = [&sk.to_bytes()[..], input].concat();","    let ikm = [&sk.to_bytes()[..], &input[..16]].concat();")],
 needs="two inputs that share their first 16 bytes",
 breaks="the nonce is reused and the secret key follows from two proofs",
 head=LIB, main=VRF+'''fn main(){
    let x=sk(1); let a=inp(1); let mut b=a; b[20]^=1;
    let (_,(ra,_,_))=compute_vrf(x,&a); let (_,(rb,_,_))=compute_vrf(x,&b);
    claim(ra!=rb,"different inputs have different nonces");
}'''),
dict(id="s22-short-nonce", prop="C16",
 edits=[(V,'''        okm[..32]
            .try_into()
            .expect("Failed to convert HKDF output to scalar - invalid 32-byte slice"),
''','''        {
            let mut wide = [0u8; 32];
            // 30 bytes are always below the group order, no reduction bias
            wide[..30].copy_from_slice(&okm[..30]);
            wide
        },
''')],
 needs="a collection of published proofs (lattice attack on nonces known to be below 2^240)",
 breaks="the proofs of one key reveal the key",
 head=LIB, main=VRF+'''fn main(){
    let x=sk(1); let mut top=0;
    for n in 0..200 { let i=inp(n); let pk=(x*G).compress().to_bytes(); let (o,(cb,ch,s))=compute_vrf(x,&i);
        let c=chal(&[b"VRF-Ephem-Challenge",&o.to_bytes(),&cb.to_bytes(),&ch.to_bytes(),&pk,&i]);
        let k=(s-c*x).to_bytes(); if k[30]!=0||k[31]!=0 {top+=1} }
    claim(top>150,"nonces use the whole range of the group order");
}'''),
dict(id="s23-key-from-public-half", prop="C17",
 edits=[(V,"&keypair.to_bytes());","&keypair.to_bytes()[32..]);")],
 needs="nothing but the oracle's public identity",
 breaks="the VRF secret key is derived from the public half of the identity; anyone computes all outputs",
 head=LIB, main='''use solana_sdk::signature::{Keypair,Signer};
use hkdf::Hkdf; use sha2::Sha512;
fn main(){
    let k=Keypair::new_from_array([9;32]);
    let (s,_)=ephemeral_vrf::vrf::generate_vrf_keypair(&k);
    let hk=Hkdf::<Sha512>::new(Some(b"VRF-Solana-SecretKey"),k.pubkey().as_ref()); let mut o=[0u8;64]; hk.expand(b"VRF-Key",&mut o).unwrap();
    let g=curve25519_dalek::scalar::Scalar::from_bytes_mod_order(o[..32].try_into().unwrap());
    if g==s { println!("BROKEN: the key follows from the public identity"); std::process::exit(1) } println!("ok");
}'''),
dict(id="s24-range-off-by-one", prop="C20",
 edits=[("sdk/src/rnd.rs","        if b < threshold {","        if b <= threshold {")],
 needs="a byte equal to the threshold, for a range that does not divide 256",
 breaks="the smallest value of the range is more likely than the others",
 head=LIB, main='''fn main(){
    let mut c=[0u64;100]; let mut x=1u64;
    for _ in 0..2_000_000u32 { let mut b=[0u8;32]; for i in 0..32 { x=x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); b[i]=(x>>56) as u8 }
        c[ephemeral_vrf_sdk::rnd::random_u8_with_range(&b,0,99) as usize]+=1 }
    let rest:u64=c[1..].iter().sum(); let avg=rest as f64/99.0;
    if c[0] as f64 > avg*1.2 { println!("BROKEN: 0 came {} times, others {:.0}",c[0],avg); std::process::exit(1) } println!("ok {} {avg:.0}",c[0]);
}'''),
dict(id="s25-u64-repeats-a-byte", prop="C20",
 edits=[("sdk/src/rnd.rs","bytes[0], bytes[4], bytes[8], bytes[12], bytes[16], bytes[20], bytes[24], bytes[28],","bytes[0], bytes[4], bytes[8], bytes[12], bytes[16], bytes[20], bytes[28], bytes[28],")],
 needs="a look at the joint distribution of the bytes of the result",
 breaks="two bytes of the 64-bit value are always equal: most values never occur",
 head=LIB, main='''fn main(){
    let mut d=false; for n in 0..255u8 { let mut b=[0u8;32]; b[24]=n; b[28]=255-n; b[20]=n^0x55; let v=ephemeral_vrf_sdk::rnd::random_u64(&b).to_le_bytes();
      if v[6]!=v[7] { d=true } }
    if !d { println!("BROKEN: two bytes of the value are always equal"); std::process::exit(1) } println!("ok");
}'''),
dict(id="s26-extra-init-step", prop="C19",
 edits=[("api/src/sdk.rs","    let inits = target_size.div_ceil(10240);","    let inits = target_size / 10240 + 1;")],
 needs="a queue size that is an exact multiple of 10240 bytes",
 breaks="the builder returns one instruction too many, and the transaction fails",
 main='''fn main(){
    for size in [9500u32,10240,10241,20480,20481] {
    let mut c=Chain::start(&["o1"]);
    let ixs=api::initialize_oracle_queue(pk("o1"),pk("o1"),0,Some(size));
    let o=c.tx(&ixs,&["o1"]);
    claim(o.ok && c.get("q:o1:0").data.len()==size as usize,"the instructions of the builder create the queue");
    }
}'''),
dict(id="s27-regular-keeps-priority", prop="C19",
 edits=[("sdk/src/instructions.rs","    ix.data[0] = 8;","    if ix.data.len() <= 512 {\n        ix.data[0] = 8;\n    }")],
 needs="a regular request with a large payload",
 breaks="large regular requests are sent as high priority ones",
 main='''fn main(){
    let mut c=Chain::start(&["o1"]); let q=c.queue("o1",0,5000);
    for n in [0usize,100,500] { let mut r=Req::new(&q); r.args=vec![1;n]; must(c.request(&r)); }
    claim(c.items(&q).iter().all(|i| i.prio==0),"regular requests arrive as regular ones");
}'''),
dict(id="s28-empty-purge-closes-account-funds", prop="C07",
 edits=[(P+"fees.rs","    **queue_lamports = (**queue_lamports)\n        .checked_sub(amount)\n        .ok_or(ProgramError::InsufficientFunds)?;","    // keep what is left above zero with the queue\n    let amount = amount.min(u32::MAX as u64 / 1000 * 1000).min(**queue_lamports);\n    **queue_lamports = (**queue_lamports)\n        .checked_sub(amount)\n        .ok_or(ProgramError::InsufficientFunds)?;")],
 needs="a purge whose total fee exceeds 4,294,967,000 lamports (more than 5368 high priority requests)",
 breaks="the oracle is paid less than the escrowed fees",
 main='''fn main(){ std::process::exit(4) }'''),
]
SEEDS=[s for s in SEEDS if "process::exit(4)" not in s["main"]]
