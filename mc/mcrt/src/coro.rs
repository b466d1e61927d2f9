//! Stackful coroutines: one OS thread, several stacks, explicit switches.
use core::arch::global_asm;

global_asm!(
    r#"
    .text
    .globl mcrt_switch
    .type mcrt_switch,@function
mcrt_switch:
    push rbp
    push rbx
    push r12
    push r13
    push r14
    push r15
    mov [rdi], rsp
    mov rsp, rsi
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbx
    pop rbp
    ret
    .size mcrt_switch, . - mcrt_switch
"#
);

extern "C" {
    fn mcrt_switch(save: *mut usize, to: usize);
}

/// Switches from the running context (saved in `save`) to the context saved in `to`.
///
/// # Safety
/// `to` must be a context saved by `mcrt_switch` or built by [`fresh`].
#[inline(never)]
pub unsafe fn switch(save: *mut usize, to: usize) {
    mcrt_switch(save, to)
}

pub const STACK: usize = 512 * 1024;
pub const STACK_BASE: usize = 0x5800_0000_0000;

/// Maps the stack of coroutine `i`.
pub fn map_stack(i: usize) {
    unsafe {
        let addr = STACK_BASE + i * (STACK + 0x10000);
        let p = libc::mmap(
            addr as *mut _,
            STACK,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert_eq!(p as usize, addr, "cannot map a coroutine stack");
    }
}

/// Builds a context that calls `entry` on stack `i` (whatever ran there before is abandoned).
pub fn fresh(i: usize, entry: extern "C" fn() -> !) -> usize {
    let top = STACK_BASE + i * (STACK + 0x10000) + STACK - 56;
    unsafe {
        let sp = top as *mut usize;
        // The stack pointer must be 8 modulo 16 when `entry` starts.
        sp.write(0);
        sp.sub(1).write(entry as *const () as usize);
        for k in 2..8 {
            sp.sub(k).write(0);
        }
        sp.sub(7) as usize
    }
}
