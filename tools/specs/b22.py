ID, PROP, KIT = "B22", "P17", ""
NEEDS = "a guest that reads, seeks back, reads less than before, and reads on"
BREAKS = "bytes fetched before are dropped from the buffer and replaced by later bytes of the tape"
EDITS = [("sdk/src/mozakvm/inputtape.rs", "        self.internal_buf.resize(old_len + remaining_from_ecall, 0);\n", "        self.internal_buf.resize(end_offset, 0);\n")]
DEMO_SH = '''#!/bin/bash
# exit 0: behaviour is right; non-zero: broken.  The guest's reader with a stand-in for the machine's answer to its call.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
sed -e 's/core::arch::asm!/crate::machine!/' /repo/sdk/src/mozakvm/inputtape.rs > "$T/inputtape.rs" && cp "$D/demo.rs" "$T/demo.rs" || exit 3
env -u RUSTUP_TOOLCHAIN -u RUSTC_WRAPPER -u RUSTFLAGS rustc +stable -Awarnings --edition 2021 --cfg 'feature="stdread"' -o "$T/demo" "$T/demo.rs" && "$T/demo"
R=$?
rm -rf "$T"
exit $R
'''
DEMO = r'''
use std::io::{Read, Seek, SeekFrom};
#[macro_export]
macro_rules! machine {
    ("ecall", in ("a0") $id:expr, in ("a1") $to:expr, in ("a2") $n:expr $(,)?) => { crate::deliver($id, $to, $n) };
}
mod core { pub mod ecall { pub const PRIVATE_TAPE: u32 = 2; pub const PUBLIC_TAPE: u32 = 4; } }
mod inputtape;
static mut AT: usize = 0;
const LEN: usize = 40;
// the machine: the next unread bytes of the tape, each byte its own position
pub unsafe fn deliver(_id: u32, to: *mut u8, n: usize) {
    for i in 0..n.min(LEN - AT) { *to.add(i) = (AT + i) as u8; }
    AT += n.min(LEN - AT);
}
fn main() {
    let mut t = inputtape::PrivateInputTape::with_size_hint(LEN);
    let mut pos = 0usize;
    for (seek, n) in [(None, 10), (Some(2), 3), (None, 5), (None, 6), (Some(0), 1), (Some(1), 20), (Some(38), 9)] {
        if let Some(s) = seek { t.seek(SeekFrom::Start(s as u64)).unwrap(); pos = s; }
        let mut buf = vec![0xee; n];
        let got = t.read(&mut buf).unwrap();
        assert_eq!(got, n.min(LEN - pos));
        for i in 0..n { assert_eq!(buf[i], if i < got { (pos + i) as u8 } else { 0xee }, "byte {i} of {n} read at {pos}"); }
        pos += got;
    }
}
'''
