//! `wipe COMMANDS EVENTS`: histories of secrets (seeds and private keys).  Arena slots hold a secret in memory this
//! program owns, so what a drop leaves there can be read back; "scope" commands let a secret go out of scope in the
//! ordinary ways and inspect the released memory, because compilers may treat the two differently.
use harness::abs::{arr, hex, unhex};
use harness::j::{self, J};
use sia::seed::Seed;
use sia::signing::PrivateKey;
use sia::types::Hash256;
use std::collections::BTreeMap;
use std::hint::black_box;
use std::io::{BufRead, Write};
use std::alloc::{GlobalAlloc, Layout, System};
use std::mem::{size_of, MaybeUninit};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

// ------------------------------------------------------------------ reading memory back
static mut AFTER: [u8; 256] = [0; 256];
/// copy `n` bytes at `p` without disturbing the stack below the caller's frame
#[inline(always)]
fn snapshot(p: usize, n: usize) -> [u8; 256] {
    unsafe {
        let mut i = 0;
        while i < n {
            let b = std::ptr::read_volatile((p + i) as *const u8);
            std::ptr::write_volatile((&raw mut AFTER as *mut u8).add(i), b);
            i += 1;
        }
        std::ptr::read_volatile(&raw const AFTER)
    }
}
/// secret bytes still in place: in memory this program owns, every one; in released memory, which may already hold
/// something else, only runs of at least six
fn residue(secret: &[u8], after: &[u8], owned: bool) -> usize {
    let mut total = 0;
    let mut run = 0;
    for i in 0..=secret.len() {
        if i < secret.len() && secret[i] != 0 && secret[i] == after[i] {
            run += 1;
        } else {
            if owned || run >= 6 {
                total += run
            }
            run = 0;
        }
    }
    total
}
/// six bytes of the secret in a row, anywhere in `m`: how many such places
fn anywhere(secret: &[u8], m: &[u8]) -> usize {
    let mut n = 0;
    for w in secret.windows(6) {
        if w.iter().all(|b| *b != 0) {
            n += m.windows(6).filter(|x| x == &w).count();
        }
    }
    n
}

// ------------------------------------------------------------------ memory as it is released
/// While a secret goes out of scope every block given back to the allocator is looked at, whoever gives it back.
struct Watching;
static WATCH: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicUsize = AtomicUsize::new(0);
static mut SECRET: [u8; 64] = [0; 64];
static SECRET_LEN: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if WATCH.load(Ordering::SeqCst) {
            let s = std::slice::from_raw_parts(&raw const SECRET as *const u8, SECRET_LEN.load(Ordering::SeqCst));
            LEFT.fetch_add(anywhere(s, std::slice::from_raw_parts(p, l.size())), Ordering::SeqCst);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOCATOR: Watching = Watching;
/// from now on: blocks that hold (part of) this secret when they are released
fn watch(secret: &[u8]) {
    unsafe { std::ptr::copy_nonoverlapping(secret.as_ptr(), &raw mut SECRET as *mut u8, secret.len()) };
    SECRET_LEN.store(secret.len(), Ordering::SeqCst);
    LEFT.store(0, Ordering::SeqCst);
    WATCH.store(true, Ordering::SeqCst);
}
#[inline(always)]
fn unwatch() -> usize {
    WATCH.store(false, Ordering::SeqCst);
    LEFT.load(Ordering::SeqCst)
}

// ------------------------------------------------------------------ slots
enum Slot {
    Seed(Box<MaybeUninit<Seed>>),
    Key(Box<MaybeUninit<PrivateKey>>),
}
impl Slot {
    fn seed(x: Seed) -> Slot {
        let mut m = Box::new(MaybeUninit::uninit());
        m.write(x);
        Slot::Seed(m)
    }
    fn new_key(x: PrivateKey) -> Slot {
        let mut m = Box::new(MaybeUninit::uninit());
        m.write(x);
        Slot::Key(m)
    }
    fn the_seed(&self) -> &Seed {
        match self {
            Slot::Seed(m) => unsafe { m.assume_init_ref() },
            _ => panic!("harness: not a seed"),
        }
    }
    fn key(&self) -> &PrivateKey {
        match self {
            Slot::Key(m) => unsafe { m.assume_init_ref() },
            _ => panic!("harness: not a key"),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Slot::Seed(_) => self.the_seed().as_bytes().to_vec(),
            Slot::Key(_) => self.key().as_bytes().to_vec(),
        }
    }
    /// drop the secret in place and count what is left of it: where it was, elsewhere in the object, and in memory
    /// released meanwhile
    fn wipe(self) -> usize {
        let secret = self.bytes();
        match self {
            Slot::Seed(m) => Slot::wiped(m, |x| x.as_bytes(), &secret),
            Slot::Key(m) => Slot::wiped(m, |x| x.as_bytes(), &secret),
        }
    }
    fn wiped<T>(mut m: Box<MaybeUninit<T>>, bytes: fn(&T) -> &[u8], secret: &[u8]) -> usize {
        unsafe {
            let (start, size) = (m.as_ptr() as usize, size_of::<T>());
            let p = bytes(m.assume_init_ref()).as_ptr() as usize;
            watch(secret);
            std::ptr::drop_in_place(m.as_mut_ptr());
            let released = unwatch();
            let inside = start <= p && p + secret.len() <= start + size;
            let place = if inside { residue(secret, &snapshot(p, secret.len()), true) } else { 0 };
            let object: Vec<u8> = (start..start + size).map(|a| std::ptr::read_volatile(a as *const u8)).collect();
            place + anywhere(secret, &object) + released
        }
    }
}

// ------------------------------------------------------------------ ordinary scopes
trait Secret: Sized + Send + 'static {
    const N: usize;
    fn make(b: &[u8]) -> Self;
    fn copy(&self) -> Self;
    fn bytes(&self) -> &[u8];
}
impl Secret for Seed {
    const N: usize = 16;
    fn make(b: &[u8]) -> Self {
        Seed::new(b.try_into().unwrap())
    }
    fn copy(&self) -> Self {
        Seed::new(self.as_bytes().try_into().unwrap())
    }
    fn bytes(&self) -> &[u8] {
        self.as_bytes()
    }
}
impl Secret for PrivateKey {
    const N: usize = 64;
    fn make(b: &[u8]) -> Self {
        PrivateKey::from(<[u8; 64]>::try_from(b).unwrap())
    }
    fn copy(&self) -> Self {
        self.clone()
    }
    fn bytes(&self) -> &[u8] {
        self.as_bytes()
    }
}
/// a secret away from both ends of its allocation, where an allocator may write its own data
#[repr(C)]
struct Padded<T> {
    before: [u64; 4],
    x: T,
    after: [u64; 4],
}
impl<T> Padded<T> {
    fn new(x: T) -> Self {
        Padded { before: [0; 4], x, after: [0; 4] }
    }
}
/// where the bytes of a secret are, from when on it is about to go
fn at<T: Secret>(x: &T) -> usize {
    let b = black_box(x).bytes();
    watch(b);
    b.as_ptr() as usize
}

#[inline(never)]
fn in_stack<T: Secret>(b: &[u8]) -> usize {
    let x = T::make(black_box(b));
    at(&x)
}
#[inline(never)]
fn in_copy<T: Secret>(b: &[u8]) -> usize {
    let x = T::make(black_box(b));
    let y = black_box(&x).copy();
    at(&y) // not drop(y), which would move it, and a moved-from place is not wiped
}
#[inline(never)]
fn in_array<T: Secret>(b: &[u8]) -> usize {
    let x = [T::make(black_box(b)), T::make(b)];
    at(&x[1])
}
#[inline(never)]
fn in_box<T: Secret>(b: &[u8]) -> usize {
    let x = Box::new(Padded::new(T::make(black_box(b))));
    black_box((&x.before, &x.after));
    at(&x.x)
}
#[inline(never)]
fn in_vec<T: Secret>(b: &[u8]) -> usize {
    let mut v: Vec<T> = Vec::with_capacity(16);
    for _ in 0..9 {
        v.push(T::make(black_box(b)));
    }
    let p = at(&v[5]);
    if black_box(false) {
        std::mem::forget(v);
    }
    p
}
#[inline(never)]
fn in_truncate<T: Secret>(v: &mut Vec<T>) -> usize {
    let p = at(&v[5]);
    v.truncate(2);
    p
}
#[inline(never)]
fn in_clear<T: Secret>(v: &mut Vec<T>) -> usize {
    let p = at(&v[5]);
    v.clear();
    p
}
#[inline(never)]
fn in_option<T: Secret>(b: &[u8]) -> usize {
    // (assigning None instead would copy whatever the stack has into the place)
    let x = Box::new(Some(Padded::new(T::make(black_box(b)))));
    at(&black_box(&x).as_ref().as_ref().unwrap().x)
}
#[inline(never)]
fn in_slice<T: Secret>(b: &[u8]) -> usize {
    let x: Box<[T]> = (0..4).map(|_| T::make(black_box(b))).collect();
    at(&x[2])
}
#[inline(never)]
fn in_closure<T: Secret>(b: &[u8]) -> usize {
    let x = Padded::new(T::make(black_box(b)));
    let f: Box<dyn Fn() -> usize> = Box::new(move || at(&x.x));
    black_box(&f)()
}
#[inline(never)]
fn in_dyn<T: Secret>(b: &[u8]) -> usize {
    let x: Box<dyn std::any::Any> = Box::new(Padded::new(T::make(black_box(b))));
    at(&black_box(&x).downcast_ref::<Padded<T>>().unwrap().x)
}
#[inline(never)]
fn in_map<T: Secret>(b: &[u8]) -> usize {
    let x: BTreeMap<u8, T> = (0..9).map(|i| (i, T::make(black_box(b)))).collect();
    at(&x[&4])
}
#[inline(never)]
fn in_early<T: Secret>(b: &[u8]) -> Result<(), usize> {
    let x = T::make(black_box(b));
    Err(at(&x))?;
    Ok(())
}
#[inline(never)]
fn in_rc<T: Secret>(b: &[u8]) -> usize {
    let x = std::sync::Arc::new(Padded::new(T::make(black_box(b))));
    let y = x.clone();
    let p = at(&y.x);
    drop(x);
    drop(y);
    p
}
#[inline(never)]
fn in_unwind<T: Secret>(b: &[u8], p: &mut usize) {
    let x = Box::new(Padded::new(T::make(black_box(b))));
    *p = at(&x.x);
    if black_box(true) {
        std::panic::resume_unwind(Box::new(()));
    }
    drop(x);
}
#[inline(never)]
fn in_stack_unwind<T: Secret>(b: &[u8], p: &mut usize) {
    let x = T::make(black_box(b));
    *p = at(&x);
    if black_box(true) {
        std::panic::resume_unwind(Box::new(()));
    }
    drop(x);
}

fn scope<T: Secret>(form: &str, b: &[u8]) -> usize {
    let n = T::N;
    let gone = |p: usize| residue(b, &snapshot(p, n), false);
    let r = match form {
        "stack" => residue(b, &snapshot(in_stack::<T>(b), n), false),
        "copy" => residue(b, &snapshot(in_copy::<T>(b), n), false),
        "array" => residue(b, &snapshot(in_array::<T>(b), n), false),
        "early" => residue(b, &snapshot(in_early::<T>(b).unwrap_err(), n), false),
        "box" => gone(in_box::<T>(b)),
        "vec" => gone(in_vec::<T>(b)),
        "slice" => gone(in_slice::<T>(b)),
        "closure" => gone(in_closure::<T>(b)),
        "dyn" => gone(in_dyn::<T>(b)),
        "map" => gone(in_map::<T>(b)),
        "arc" => gone(in_rc::<T>(b)),
        "truncate" | "clear" => {
            let mut v: Vec<T> = (0..9).map(|_| T::make(b)).collect();
            let p = if form == "clear" { in_clear(&mut v) } else { in_truncate(&mut v) };
            let r = gone(p);
            unwatch(); // what is left in v is another matter
            black_box(&v);
            r + LEFT.load(Ordering::SeqCst)
        }
        "option" => gone(in_option::<T>(b)),
        "unwind" => {
            let mut p = 0;
            let _ = catch_unwind(AssertUnwindSafe(|| in_unwind::<T>(b, &mut p)));
            gone(p)
        }
        "stack-unwind" => {
            let mut p = 0;
            let _ = catch_unwind(AssertUnwindSafe(|| in_stack_unwind::<T>(b, &mut p)));
            gone(p)
        }
        // a thread that takes the secret with it
        "thread" => {
            let x = Box::new(Padded::new(T::make(b)));
            let p = at(&x.x);
            let r = std::thread::spawn(move || {
                black_box(&x.x);
                drop(x);
                snapshot(p, n)
            });
            residue(b, &r.join().unwrap(), false)
        }
        f => panic!("harness: form {f}"),
    };
    r + unwatch()
}

// ------------------------------------------------------------------ commands
fn live(s: &BTreeMap<String, Slot>) -> J {
    J::Arr(s.iter().map(|(k, v)| J::Arr(vec![J::s(k.clone()), J::s(hex(&v.bytes()))])).collect())
}
fn run(slots: &mut BTreeMap<String, Slot>, c: &J) -> J {
    let at = |k: &str| c.get(k).str().to_string();
    let idx = || u64::from_be_bytes(arr(c.get("i")));
    let mut gone = 0;
    let put = |slots: &mut BTreeMap<String, Slot>, x: Slot| {
        // replacing a secret drops the one that was there
        slots.insert(at("to"), x).map_or(0, |old| old.wipe())
    };
    match c.get("op").str() {
        "s_reset" => {
            for (_, s) in std::mem::take(slots) {
                gone += s.wipe();
            }
        }
        "s_new" => {
            let b = unhex(c.get("v").str());
            let x = match c.get("how").str() {
                "seed" => Slot::seed(Seed::new(b[..].try_into().unwrap())),
                "phrase" => {
                    let words = Seed::new(b[..].try_into().unwrap()).to_mnemonic();
                    Slot::seed(Seed::from_mnemonic(&words).expect("mnemonic"))
                }
                "raw" => Slot::new_key(PrivateKey::from(<[u8; 64]>::try_from(&b[..]).unwrap())),
                "fromseed" => Slot::new_key(PrivateKey::from_seed(b[..].try_into().unwrap())),
                "hash" => Slot::new_key(PrivateKey::from(Hash256::new(b[..].try_into().unwrap()))),
                h => panic!("harness: how {h}"),
            };
            gone = put(slots, x);
        }
        "s_clone" => {
            let x = match &slots[&at("from")] {
                Slot::Seed(m) => Slot::seed(unsafe { m.assume_init_ref() }.copy()),
                Slot::Key(m) => Slot::new_key(unsafe { m.assume_init_ref() }.clone()),
            };
            gone = put(slots, x);
        }
        "s_derive" => {
            let x = Slot::new_key(slots[&at("from")].the_seed().private_key(idx()));
            gone = put(slots, x);
        }
        "s_use" => match &slots[&at("from")] {
            Slot::Seed(m) => {
                let s = unsafe { m.assume_init_ref() };
                black_box(s.to_mnemonic());
                black_box(s.private_key(1));
            }
            Slot::Key(m) => {
                let k = unsafe { m.assume_init_ref() };
                black_box(k.sign_hash(&Hash256::new([7; 32])));
                black_box(k.public_key());
            }
        },
        // out of the slot, through the stack, into the other
        "s_move" => {
            let old = slots.remove(&at("from")).expect("harness: slot");
            let x = match old {
                Slot::Seed(m) => Slot::seed(black_box(unsafe { m.assume_init_read() })),
                Slot::Key(m) => Slot::new_key(black_box(unsafe { m.assume_init_read() })),
            };
            gone = put(slots, x);
        }
        "s_drop" => gone = slots.remove(&at("from")).expect("harness: slot").wipe(),
        "s_scope" => {
            let b = unhex(c.get("v").str());
            gone = match c.get("kind").str() {
                "seed" => scope::<Seed>(c.get("form").str(), &b),
                _ => scope::<PrivateKey>(c.get("form").str(), &b),
            };
        }
        op => panic!("harness: op {op}"),
    }
    J::obj(vec![("r", J::s("ok")), ("live", live(slots)), ("residue", J::n(gone))])
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("harness:") {
            eprintln!("{m}");
            std::process::exit(3);
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let commands = std::fs::File::open(&args[1]).expect("harness: commands");
    let skip: usize = args.get(3).map_or(0, |s| s.parse().unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("harness: events");
    let mut slots = BTreeMap::new();
    for line in std::io::BufReader::new(commands).lines().skip(skip) {
        let c = j::parse(&line.unwrap()).unwrap_or_else(|e| panic!("harness: command: {e}"));
        let res = catch_unwind(AssertUnwindSafe(|| run(&mut slots, &c)))
            .unwrap_or_else(|_| J::obj(vec![("r", J::s("panic"))]));
        let J::Obj(mut m) = c else { panic!("harness: command") };
        m.push(("res".to_string(), res));
        writeln!(out, "{}", J::Obj(m).text()).unwrap();
    }
}
