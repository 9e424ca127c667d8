ID, PROP, KIT = "B21", "P16", ""
NEEDS = "a first allocation with a larger alignment than the end of the program image happens to have"
BREAKS = "the first block the guest allocator hands out is not aligned as asked"
EDITS = [("sdk/src/core/alloc.rs", """        heap_pos = unsafe { core::ptr::from_ref::<u8>(&_end).cast::<u8>() as usize };
    }

    let offset = heap_pos & (align - 1);
    if offset != 0 {
        heap_pos += align - offset;
    }
""", """        heap_pos = unsafe { core::ptr::from_ref::<u8>(&_end).cast::<u8>() as usize };
    } else {
        let offset = heap_pos & (align - 1);
        if offset != 0 {
            heap_pos += align - offset;
        }
    }
""")]
DEMO_SH = '''#!/bin/bash
# exit 0: behaviour is right; non-zero: broken.  The allocator's function, not registered as this program's own allocator.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
sed -e '/^#\\[global_allocator\\]/,/;$/d' /repo/sdk/src/core/alloc.rs > "$T/alloc.rs" && cp "$D/demo.rs" "$T/demo.rs" || exit 3
env -u RUSTUP_TOOLCHAIN -u RUSTC_WRAPPER -u RUSTFLAGS rustc +stable -Awarnings --edition 2021 -o "$T/demo" "$T/demo.rs" && "$T/demo"
R=$?
rm -rf "$T"
exit $R
'''
DEMO = r'''
mod alloc;
fn main() {
    // one thread per history would share the heap: one history, the first request the demanding one
    let mut last = 0usize;
    for (bytes, align) in [(3usize, 1usize << 16), (1, 1), (5, 4), (0, 64), (7, 8), (64, 4096), (1, 2)] {
        let p = alloc::alloc_aligned(bytes, align) as usize;
        assert_eq!(p % align, 0, "a block of alignment {align} at {p:#x}");
        assert!(p >= last, "blocks overlap");
        assert!(last == 0 || p - last < align, "a gap");
        last = p + bytes;
    }
}
'''
