//! Links and runs with neither std, nor an allocator, nor libc: the whole program is core, libm and interpn.
//! Exit status: 42 when every method gives its node values and an interior value, anything else otherwise.
#![no_std]
#![no_main]
use core::arch::asm;
use interpn::one_dim::hold::{Left1D, Nearest1D, Right1D};
use interpn::one_dim::linear::{Linear1D, LinearHoldLast1D};
use interpn::one_dim::{Interp1D, RectilinearGrid1D, RegularGrid1D};
use interpn::{multicubic, multilinear, nearest};

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    exit(101)
}
#[unsafe(no_mangle)]
extern "C" fn rust_eh_personality() {}
#[unsafe(no_mangle)]
extern "C" fn _Unwind_Resume() -> ! {
    exit(102)
}
fn exit(c: i32) -> ! {
    unsafe { asm!("syscall", in("rax") 60, in("rdi") c, options(noreturn)) }
}
// the only outside symbols compiled code may need: plain memory operations
#[unsafe(no_mangle)]
unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    unsafe { asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _) }
    d
}
#[unsafe(no_mangle)]
unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    unsafe {
        if (d as usize) <= (s as usize) || (d as usize) >= (s as usize) + n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _)
        } else {
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n).wrapping_sub(1) => _, inout("rsi") s.add(n).wrapping_sub(1) => _)
        }
    }
    d
}
#[unsafe(no_mangle)]
unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    unsafe { asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8) }
    d
}
#[unsafe(no_mangle)]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    for i in 0..n {
        let (x, y) = unsafe { (a.add(i).read_volatile(), b.add(i).read_volatile()) };
        if x != y {
            return x as i32 - y as i32;
        }
    }
    0
}
#[unsafe(no_mangle)]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    unsafe { memcmp(a, b, n) }
}

macro_rules! methods {
    ($t:ty, $n:tt) => {{
        // values 1 + sum of coordinates: every method reproduces it inside
        const L: usize = [5usize; $n].len();
        let dims = [5usize; L];
        let starts = [-1.0 as $t; L];
        let steps = [0.5 as $t; L];
        let g = [-1.0 as $t, -0.5, 0.0, 0.5, 1.0];
        let grids = [&g[..]; L];
        const TOT: usize = 5usize.pow(L as u32);
        let mut vals = [0.0 as $t; TOT];
        let mut i = 0;
        while i < TOT {
            let mut s = 1.0 as $t;
            let mut k = i;
            for _ in 0..L {
                s += g[k % 5];
                k /= 5;
            }
            vals[i] = s;
            i += 1;
        }
        let p: [$t; 3] = [0.25, -0.75, 0.5];
        let obs = [&p[..]; L];
        let mut ok = true;
        let near = |o: &[$t; 3]| (0..3).all(|j| (o[j] - (1.0 + p[j] * L as $t)).abs() < 1e-4);
        let mut o = [0.0 as $t; 3];
        macro_rules! m { ($e:expr) => {{ o = [0.0; 3]; ok &= $e.is_ok() && near(&o); }}; }
        m!(multilinear::regular::interpn(&dims, &starts, &steps, &vals, &obs, &mut o));
        m!(multilinear::regular_recursive::interpn(&dims, &starts, &steps, &vals, &obs, &mut o));
        m!(multilinear::rectilinear::interpn(&grids, &vals, &obs, &mut o));
        m!(multilinear::rectilinear_recursive::interpn(&grids, &vals, &obs, &mut o));
        m!(multicubic::regular::interpn(&dims, &starts, &steps, &vals, true, &obs, &mut o));
        m!(multicubic::regular_recursive::interpn(&dims, &starts, &steps, &vals, false, &obs, &mut o));
        m!(multicubic::rectilinear::interpn(&grids, &vals, false, &obs, &mut o));
        m!(multicubic::rectilinear_recursive::interpn(&grids, &vals, true, &obs, &mut o));
        let q = [0.4 as $t; 3];
        let obq = [&q[..]; L];
        for r in [nearest::regular::interpn(&dims, &starts, &steps, &vals, &obq, &mut o), nearest::rectilinear::interpn(&grids, &vals, &obq, &mut o)] {
            ok &= r.is_ok() && (o[1] - (1.0 + 0.5 * L as $t)).abs() < 1e-4;
        }
        let mut flags = [false; L];
        let far = [7.0 as $t; 3];
        let obf = [&far[..]; L];
        ok &= multilinear::regular::check_bounds(&dims, &starts, &steps, &obf, 0.1, &mut flags).is_ok() && flags[L - 1];
        ok &= multilinear::rectilinear::check_bounds(&grids, &obs, 0.1, &mut flags).is_ok() && !flags[L - 1];
        ok &= multilinear::regular_recursive::check_bounds(&dims, &starts, &steps, &obf, 0.1, &mut flags).is_ok() && flags[L - 1];
        ok &= multilinear::rectilinear_recursive::check_bounds(&grids, &obs, 0.1, &mut flags).is_ok() && !flags[L - 1];
        // malformed input is an error here too
        ok &= multilinear::regular::interpn(&dims, &starts, &steps, &vals[1..], &obs, &mut o).is_err();
        ok
    }};
}

macro_rules! one {
    ($t:ty) => {{
        let g = [-1.0 as $t, -0.5, 0.0, 0.5, 1.0];
        let v = [0.0 as $t, 0.5, 1.0, 1.5, 2.0];
        let mut ok = true;
        let mut o = [0.0 as $t; 2];
        macro_rules! r { ($i:ident, $a:expr, $b:expr) => {{
            ok &= $i::new(RegularGrid1D::new(g[0], 0.5, &v).unwrap()).eval(&[0.125, 3.0], &mut o).is_ok() && (o[0] - $a as $t).abs() < 1e-5 && (o[1] - $b as $t).abs() < 1e-5;
            ok &= $i::new(RectilinearGrid1D::new(&g, &v).unwrap()).eval(&[0.125, 3.0], &mut o).is_ok() && (o[0] - $a as $t).abs() < 1e-5 && (o[1] - $b as $t).abs() < 1e-5;
        }}; }
        r!(Linear1D, 1.125, 4.0);
        r!(LinearHoldLast1D, 1.125, 2.0);
        r!(Left1D, 1.0, 2.0);
        r!(Right1D, 1.5, 2.0);
        r!(Nearest1D, 1.0, 2.0);
        ok
    }};
}

#[inline(never)]
fn all() -> bool {
    methods!(f64, 1) && methods!(f64, 2) && methods!(f32, 3) && methods!(f64, 4) && methods!(f32, 1) && one!(f64) && one!(f32)
}

#[unsafe(no_mangle)]
extern "C" fn begin() -> ! {
    exit(if all() { 42 } else { 1 })
}
core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "and rsp, -16", "call begin", "ud2");
