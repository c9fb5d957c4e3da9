//! A miniature Solana runtime: a ledger of accounts, transactions that run the program's real entry
//! point on the real serialized input format, cross-program invocation of the real SPL token
//! processor, and the runtime's own rules (privileges, ownership of writes, atomic rollback).
//! Everything observable is recorded for the monitors.

use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::Instruction,
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type ProgramFn = for<'a, 'b, 'c, 'd> fn(&'a Pubkey, &'b [AccountInfo<'c>], &'d [u8]) -> ProgramResult;

#[derive(Clone, Debug, PartialEq)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    /// program returned an error
    Err(ProgramError),
    /// program panicked
    Panic(String),
    /// the runtime refused an effect (write to a foreign/read-only account, failed CPI swallowed, ...)
    Runtime(String),
}
impl Outcome {
    pub fn ok(&self) -> bool {
        matches!(self, Outcome::Ok)
    }
}

#[derive(Clone, Debug)]
pub struct CpiEvent {
    pub program: Pubkey,
    pub metas: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
    pub pda_signers: Vec<Pubkey>,
    pub result: Result<(), ProgramError>,
}

#[derive(Clone, Debug)]
pub struct Record {
    pub outcome: Outcome,
    pub pre: BTreeMap<Pubkey, Account>,
    /// state after the transaction (equal to pre when it failed)
    pub post: BTreeMap<Pubkey, Account>,
    pub signers: BTreeSet<Pubkey>,
    pub cpi: Vec<CpiEvent>,
}

#[derive(Clone, Default)]
pub struct Ledger {
    pub accts: BTreeMap<Pubkey, Account>,
    /// transactions mark every account writable, as a sender may
    pub all_writable: bool,
}

struct Ctx {
    infos: Vec<AccountInfo<'static>>,
    shadow: BTreeMap<Pubkey, Account>,
    signer: BTreeSet<Pubkey>,
    writable: BTreeSet<Pubkey>,
    stack: Vec<Pubkey>,
    cpi: Vec<CpiEvent>,
    poison: Option<String>,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    pub static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn token_program() -> Pubkey {
    spl_token::id()
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe {
            *(var_addr as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default();
        }
        0
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe {
            *(var_addr as *mut solana_program::clock::Clock) = Default::default();
        }
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        invoke(ix, infos, seeds)
    }
}

/// Install the syscall table and a panic hook that stays silent while code under test runs.
pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", short(l.file()), l.line()))
                .unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        } else {
            old(info)
        }
    }));
}
fn short(f: &str) -> &str {
    match f.rfind("/src/") {
        Some(i) => {
            let j = f[..i].rfind('/').map(|x| x + 1).unwrap_or(0);
            &f[j..]
        }
        None => f,
    }
}

/// Run code under test, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn verify_writes(ctx: &mut Ctx, by: &Pubkey) -> Result<(), String> {
    let mut seen: BTreeSet<Pubkey> = BTreeSet::new();
    for i in &ctx.infos {
        if !seen.insert(*i.key) {
            continue;
        }
        let sh = match ctx.shadow.get_mut(i.key) {
            Some(s) => s,
            None => continue,
        };
        let data = match i.data.try_borrow() {
            Ok(d) => d,
            Err(_) => continue,
        };
        let lam = match i.lamports.try_borrow() {
            Ok(l) => **l,
            Err(_) => continue,
        };
        if data.len() != sh.data.len() {
            return Err(format!("resized account {}", i.key));
        }
        if **data != sh.data[..] {
            if !ctx.writable.contains(i.key) {
                return Err(format!("data of read-only account {} changed", i.key));
            }
            if sh.owner != *by || sh.executable {
                return Err(format!("data of account {} not owned by the writing program changed", i.key));
            }
            sh.data.copy_from_slice(&data);
        }
        if lam != sh.lamports {
            if !ctx.writable.contains(i.key) {
                return Err(format!("lamports of read-only account {} changed", i.key));
            }
            if lam < sh.lamports && sh.owner != *by {
                return Err(format!("lamports taken from foreign account {}", i.key));
            }
            sh.lamports = lam;
        }
        if *i.owner != sh.owner {
            return Err(format!("owner of {} changed", i.key));
        }
    }
    Ok(())
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let mut ctx = CTX
        .with(|c| c.borrow_mut().take())
        .expect("CPI outside a transaction");
    let r = invoke_inner(&mut ctx, ix, infos, seeds);
    if let Err(e) = &r {
        if ctx.poison.is_none() {
            ctx.poison = Some(format!("CPI failed: {:?}", e));
        }
    }
    CTX.with(|c| *c.borrow_mut() = Some(ctx));
    r
}

fn invoke_inner(ctx: &mut Ctx, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let caller = *ctx.stack.last().unwrap();
    let fail = |ctx: &mut Ctx, m: String| {
        ctx.poison = Some(m);
        ProgramError::InvalidArgument
    };
    if let Err(m) = verify_writes(ctx, &caller) {
        return Err(fail(ctx, m));
    }
    let mut pda = Vec::new();
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(k) => pda.push(k),
            Err(_) => return Err(fail(ctx, "invalid seeds".into())),
        }
    }
    let mut ev = CpiEvent {
        program: ix.program_id,
        metas: ix.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect(),
        data: ix.data.clone(),
        pda_signers: pda.clone(),
        result: Ok(()),
    };
    // program must be supplied and executable
    if !infos.iter().any(|i| *i.key == ix.program_id) {
        return Err(fail(ctx, "missing program account".into()));
    }
    match ctx.shadow.get(&ix.program_id) {
        Some(a) if a.executable => {}
        _ => return Err(fail(ctx, "callee not executable".into())),
    }
    // privileges
    let mut call: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
    let mut sgn: BTreeSet<Pubkey> = BTreeSet::new();
    let mut wr: BTreeSet<Pubkey> = BTreeSet::new();
    for m in &ix.accounts {
        if m.is_signer {
            sgn.insert(m.pubkey);
        }
        if m.is_writable {
            wr.insert(m.pubkey);
        }
    }
    for m in &ix.accounts {
        let info = match infos.iter().find(|i| *i.key == m.pubkey) {
            Some(i) => i,
            None => return Err(fail(ctx, format!("missing account {} in CPI", m.pubkey))),
        };
        if m.is_signer && !(ctx.signer.contains(&m.pubkey) || pda.contains(&m.pubkey)) {
            ev.result = Err(ProgramError::MissingRequiredSignature);
            ctx.cpi.push(ev);
            return Err(fail(ctx, "signer privilege escalation".into()));
        }
        if m.is_writable && !ctx.writable.contains(&m.pubkey) {
            ev.result = Err(ProgramError::InvalidArgument);
            ctx.cpi.push(ev);
            return Err(fail(ctx, "writable privilege escalation".into()));
        }
        let mut i = info.clone();
        i.is_signer = sgn.contains(&m.pubkey);
        i.is_writable = wr.contains(&m.pubkey);
        call.push(i);
    }
    let r = if ix.program_id == spl_token::id() {
        ctx.stack.push(ix.program_id);
        // the token program makes no further CPI, so the context may stay taken
        let r = spl_token::processor::Processor::process(&ix.program_id, &call, &ix.data);
        let v = verify_writes(ctx, &ix.program_id);
        ctx.stack.pop();
        match (r, v) {
            (Ok(()), Err(m)) => Err(fail(ctx, m)),
            (r, _) => r,
        }
    } else {
        // any other executable program: does nothing, successfully (a malicious stand-in)
        Ok(())
    };
    ev.result = r.clone();
    ctx.cpi.push(ev);
    r
}

thread_local! {
    static BUF: RefCell<Vec<u64>> = RefCell::new(Vec::new());
}
struct W<'a> {
    b: &'a mut [u8],
    o: usize,
}
impl<'a> W<'a> {
    fn put(&mut self, d: &[u8]) {
        self.b[self.o..self.o + d.len()].copy_from_slice(d);
        self.o += d.len();
    }
}

/// Fill the aligned input buffer exactly as the BPF loader does.
fn serialize(buf: &mut Vec<u64>, program: &Pubkey, metas: &[Meta], accts: &BTreeMap<Pubkey, Account>, data: &[u8]) {
    let mut need = 8 + 8 + data.len() + 32;
    for m in metas {
        need += 8 + 64 + 16 + accts[&m.key].data.len() + 10240 + 16;
    }
    let words = need / 8 + 2;
    if buf.len() < words {
        buf.resize(words, 0);
    }
    let bytes = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, buf.len() * 8) };
    let mut o = W { b: bytes, o: 0 };
    o.put(&(metas.len() as u64).to_le_bytes());
    for (i, m) in metas.iter().enumerate() {
        if let Some(p) = metas[..i].iter().position(|x| x.key == m.key) {
            o.put(&[p as u8, 0, 0, 0, 0, 0, 0, 0]);
            continue;
        }
        let a = &accts[&m.key];
        o.put(&[0xff, m.signer as u8, m.writable as u8, a.executable as u8, 0, 0, 0, 0]);
        o.put(m.key.as_ref());
        o.put(a.owner.as_ref());
        o.put(&a.lamports.to_le_bytes());
        o.put(&(a.data.len() as u64).to_le_bytes());
        o.put(&a.data);
        o.o += 10240;
        o.o = (o.o + 7) / 8 * 8;
        o.put(&0u64.to_le_bytes());
    }
    o.put(&(data.len() as u64).to_le_bytes());
    o.put(data);
    o.put(program.as_ref());
}

impl Ledger {
    pub fn new() -> Self {
        let mut l = Ledger::default();
        l.accts.insert(
            spl_token::id(),
            Account {
                lamports: 1,
                data: vec![],
                owner: solana_program::bpf_loader::id(),
                executable: true,
            },
        );
        l
    }
    pub fn get(&self, k: &Pubkey) -> &Account {
        &self.accts[k]
    }
    /// Default entry: the program's Anchor entry point.
    pub fn exec(&mut self, ix: &Ix) -> Record {
        self.exec_with(ix, token_bonding_curve::entry)
    }
    pub fn exec_with(&mut self, ix: &Ix, entry: impl FnOnce(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult) -> Record {
        // message-level privileges: union over duplicates
        let mut sg: BTreeSet<Pubkey> = BTreeSet::new();
        let mut wr: BTreeSet<Pubkey> = BTreeSet::new();
        for m in &ix.metas {
            if m.signer {
                sg.insert(m.key);
            }
            if m.writable || (self.all_writable && self.accts.get(&m.key).map_or(true, |a| !a.executable)) {
                wr.insert(m.key);
            }
        }
        let metas: Vec<Meta> = ix
            .metas
            .iter()
            .map(|m| Meta {
                key: m.key,
                signer: sg.contains(&m.key),
                writable: wr.contains(&m.key),
            })
            .collect();
        let mut pre: BTreeMap<Pubkey, Account> = BTreeMap::new();
        for m in &metas {
            if !pre.contains_key(&m.key) {
                let a = self.accts.get(&m.key).cloned().unwrap_or(Account {
                    lamports: 0,
                    data: vec![],
                    owner: solana_program::system_program::id(),
                    executable: false,
                });
                pre.insert(m.key, a);
            }
        }
        let mut buf = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
        serialize(&mut buf, &ix.program, &metas, &pre, &ix.data);
        let (pid, infos, data) = unsafe { solana_program::entrypoint::deserialize(buf.as_mut_ptr() as *mut u8) };
        let static_infos: Vec<AccountInfo<'static>> =
            unsafe { std::mem::transmute::<Vec<AccountInfo>, Vec<AccountInfo<'static>>>(infos.clone()) };
        CTX.with(|c| {
            *c.borrow_mut() = Some(Ctx {
                infos: static_infos,
                shadow: pre.clone(),
                signer: sg.clone(),
                writable: wr,
                stack: vec![ix.program],
                cpi: vec![],
                poison: None,
            })
        });
        let r = guarded(|| entry(pid, &infos, data));
        let mut ctx = match CTX.with(|c| c.borrow_mut().take()) {
            Some(c) => c,
            None => {
                // panic inside a CPI: the context was lost with the unwinding
                return Record {
                    outcome: Outcome::Panic(r.err().unwrap_or_else(|| "lost context".into())),
                    post: pre.clone(),
                    pre,
                    signers: sg,
                    cpi: vec![],
                };
            }
        };
        let outcome = match r {
            Err(m) => Outcome::Panic(m),
            Ok(Err(e)) => Outcome::Err(e),
            Ok(Ok(())) => match (ctx.poison.take(), verify_writes(&mut ctx, &ix.program)) {
                (Some(m), _) => Outcome::Runtime(m),
                (None, Err(m)) => Outcome::Runtime(m),
                (None, Ok(())) => {
                    let a: u128 = pre.values().map(|x| x.lamports as u128).sum();
                    let b: u128 = ctx.shadow.values().map(|x| x.lamports as u128).sum();
                    if a != b {
                        Outcome::Runtime("lamports created or destroyed".into())
                    } else {
                        Outcome::Ok
                    }
                }
            },
        };
        let post = if outcome.ok() {
            for (k, v) in &ctx.shadow {
                if self.accts.contains_key(k) {
                    self.accts.insert(*k, v.clone());
                }
            }
            ctx.shadow.clone()
        } else {
            pre.clone()
        };
        let cpi = std::mem::take(&mut ctx.cpi);
        drop(ctx);
        drop(infos);
        BUF.with(|b| *b.borrow_mut() = buf);
        Record { outcome, pre, post, signers: sg, cpi }
    }
}
