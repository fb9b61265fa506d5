//! A program without standard library, allocator and C runtime that parses what
//! it reads and writes what it got.
//!
//! Input: records of [u32 length][u8 mode][u16 nodes][length bytes of UTF-8].
//! Output: per record what `run::run` writes, then a line `end`.

#![no_std]
#![no_main]

use core::arch::{asm, global_asm};

#[cfg(feature = "kul")]
mod run;

global_asm!(
    ".globl _start",
    "_start:",
    "xor ebp, ebp",
    "and rsp, -16",
    "call {main}",
    "ud2",
    main = sym bare_main,
);

unsafe fn sys3(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn exit(code: usize) -> ! {
    unsafe { sys3(231, code, 0, 0); }
    loop {}
}

fn write_all(mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { sys3(1, 1, b.as_ptr() as usize, b.len()) };
        if n <= 0 { exit(90) }
        b = &b[n as usize..];
    }
}

#[panic_handler]
fn panicked(_: &core::panic::PanicInfo<'_>) -> ! {
    write_all(b"\npanic\n");
    exit(70)
}

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if (d as usize) <= (s as usize) || (d as usize) >= (s as usize) + n {
        memcpy(d, s, n)
    } else {
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        d
    }
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y { return i32::from(x) - i32::from(y) }
        i += 1;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 { memcmp(a, b, n) }
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[no_mangle]
pub extern "C" fn _Unwind_Resume() -> ! { exit(71) }

const IN: usize = 16 << 20;
#[cfg(feature = "kul")]
const OUT: usize = 1 << 20;
static mut INPUT: [u8; IN] = [0; IN];
#[cfg(feature = "kul")]
static mut OUTPUT: [u8; OUT] = [0; OUT];

extern "C" fn bare_main() -> ! {
    let mut n = 0;
    loop {
        let r = unsafe { sys3(0, 0, core::ptr::addr_of_mut!(INPUT) as usize + n, IN - n) };
        if r < 0 { exit(91) }
        if r == 0 { break }
        n += r as usize;
        if n == IN { exit(92) }
    }
    records(unsafe { core::slice::from_raw_parts(core::ptr::addr_of!(INPUT) as *const u8, n) });
    exit(0)
}

#[cfg(not(feature = "kul"))]
fn records(b: &[u8]) { if b.is_empty() { write_all(b"stub\n") } else { write_all(b) } }

#[cfg(feature = "kul")]
fn records(mut b: &[u8]) {
    while b.len() >= 7 {
        let len = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
        let mode = b[4];
        let nodes = u16::from_le_bytes([b[5], b[6]]) as usize;
        let Ok(src) = core::str::from_utf8(&b[7..7 + len]) else { exit(93) };
        b = &b[7 + len..];
        let mut out = run::Out { buf: unsafe { &mut *core::ptr::addr_of_mut!(OUTPUT) }, len: 0, full: false };
        run::run(src, mode, nodes, &mut out);
        if out.full { exit(94) }
        write_all(&out.buf[..out.len]);
        write_all(b"\nend\n");
    }
}
