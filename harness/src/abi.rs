//! Used by the generated programs of the ABI checks: what the library says about a type.
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use std::mem::{align_of, size_of, MaybeUninit};

pub struct Probe {
    pub layout: fn() -> [usize; 4],
    pub judge: fn(&[u8]) -> Judged,
    /// Offsets of the fields of the type and of its C layout, where they can be named.
    pub offsets: fn() -> (Vec<usize>, Vec<usize>),
    pub names: fn() -> [String; 3],
}

pub struct Judged {
    valid: bool,
    /// What came back from C to Rust to C, checked and unchecked.
    checked: Option<Vec<u8>>,
    unchecked: Option<Vec<u8>>,
}

pub fn layout<T: ReprC>() -> [usize; 4] {
    [size_of::<T>(), align_of::<T>(), size_of::<CLayoutOf<T>>(), align_of::<CLayoutOf<T>>()]
}

unsafe fn bytes_of<T>(v: &MaybeUninit<T>) -> Vec<u8> {
    // Padding is read as well: what is compared is up to the specification.
    (0..size_of::<T>()).map(|i| std::ptr::read_volatile(v.as_ptr().cast::<u8>().add(i))).collect()
}

pub fn judge<T: ReprC>(b: &[u8]) -> Judged {
    assert_eq!(b.len(), size_of::<CLayoutOf<T>>(), "vector of another size than the type");
    let mut c = MaybeUninit::<CLayoutOf<T>>::uninit();
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), c.as_mut_ptr().cast::<u8>(), b.len());
        let valid = T::is_valid(&*c.as_ptr());
        let checked = from_raw::<T>(c.assume_init_read())
            .map(|v| bytes_of(&MaybeUninit::new(into_raw::<T>(v))));
        let unchecked = if cfg!(debug_assertions) || valid {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let v = from_raw_unchecked::<T>(c.assume_init_read());
                bytes_of(&MaybeUninit::new(into_raw::<T>(v)))
            }))
            .ok()
        } else {
            None
        };
        Judged { valid, checked, unchecked }
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &Option<Vec<u8>>) -> serde_json::Value {
    match b {
        Some(b) => b.iter().map(|x| format!("{x:02x}")).collect::<String>().into(),
        None => serde_json::Value::Null,
    }
}

pub struct Abi {
    pub probes: &'static [Probe],
}
impl crate::Driver for Abi {
    fn reset(&mut self) {}
    fn step(&mut self, cmd: &[&str]) -> serde_json::Value {
        let p = &self.probes[cmd[1].parse::<usize>().unwrap()];
        match cmd[0] {
            "layout" => serde_json::json!([(p.layout)(), (p.offsets)()]),
            "names" => serde_json::json!((p.names)()),
            "judge" => cmd[2..]
                .iter()
                .map(|h| {
                    let j = (p.judge)(&unhex(h));
                    serde_json::json!([j.valid as u8, hex(&j.checked), hex(&j.unchecked)])
                })
                .collect(),
            // Every bit pattern of a type of one or two bytes: those accepted, and by all means alike?
            "all" => {
                let n = (p.layout)()[0];
                let mut ok = vec![];
                let mut differ = vec![];
                for x in 0..1usize << (8 * n) {
                    let b = &x.to_le_bytes()[..n];
                    let j = (p.judge)(b);
                    if j.valid {
                        ok.push(x);
                    }
                    let want = if j.valid { Some(()) } else { None };
                    if j.checked.as_ref().map(drop) != want
                        || ((cfg!(debug_assertions) || j.valid) && j.unchecked.as_ref().map(drop) != want)
                    {
                        differ.push(x);
                    }
                }
                serde_json::json!([ok, differ])
            }
            c => panic!("unknown command {c}"),
        }
    }
}
