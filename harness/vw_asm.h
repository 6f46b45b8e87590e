/* Force-included when the library's C stubs are compiled in the "emul"
   configurations: assembler macros that replace the RDRAND instruction by a
   scripted one and mask the feature bits reported by CPUID, however the source
   spells them (inline assembly or intrinsics). */
#if defined(__x86_64__) && defined(__GNUC__) && !defined(__ASSEMBLER__)
__asm__(
".macro rdrand r\n"
"  call vw_rdrand_stub@PLT\n"
"  movq vw_rd_val@GOTPCREL(%rip), \\r\n"
"  movq (\\r), \\r\n"
".endm\n"
".macro cpuid\n"
"  .byte 0x0f, 0xa2\n"
"  pushq %rax\n"
"  movq vw_ecx_keep@GOTPCREL(%rip), %rax\n"
"  andl (%rax), %ecx\n"
"  popq %rax\n"
".endm\n");
#endif
