// Stand-ins for the cpuid and xgetbv instructions (and for /proc/cpuinfo): they serve the processor model of the environment variable
// VH_MODEL and log what they were asked. Compiled with -mgeneral-regs-only.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
typedef unsigned u32;
static u32 m_max, m_vendor, m_l1c, m_l1d, m_l7b, m_l7max, m_xcr0, m_garbage, loaded;
static char m_info[8192];
static size_t m_pos;
static void load(void)
{
	if (loaded) return;
	loaded = 1;
	const char *e = getenv("VH_MODEL");
	if (!e || sscanf(e, "%u,%u,%x,%x,%x,%u,%x,%x", &m_max, &m_vendor, &m_l1c, &m_l1d, &m_l7b, &m_l7max, &m_xcr0, &m_garbage) != 8) { fputs("no model\n", stderr); _Exit(3); }
	const char *i = getenv("VH_CPUINFO");
	if (i) strncpy(m_info, i, sizeof m_info - 1);
}
void vh_cpuid_c(u32 *r) // eax, ebx, ecx, edx
{
	static const char *const v[] = {"GenuineIntel", "AuthenticAMD", "CentaurHauls", "GenuineIotel", "AuthenticAMd"};
	load();
	const u32 leaf = r[0], sub = r[2];
	u32 g = m_garbage ^ (leaf * 2654435761u);
	u32 a = g, b = g * 3, c = g * 5, d = g * 7;
	printf("Q %x %x\n", leaf, sub);
	if (leaf == 0) { a = m_max; memcpy(&b, v[m_vendor], 4); memcpy(&d, v[m_vendor] + 4, 4); memcpy(&c, v[m_vendor] + 8, 4); }
	else if (leaf == 1) { c = m_l1c; d = m_l1d; }
	else if (leaf == 7 && m_max >= 7)
	{
		if (sub == 0) { a = m_l7max; b = m_l7b; }
		else if (sub > m_l7max) a = b = c = d = 0;
	}
	r[0] = a; r[1] = b; r[2] = c; r[3] = d;
}
void vh_xgetbv_c(u32 *r) // eax, edx
{
	load();
	printf("X %x\n", r[2]);
	if (!(m_l1c >> 27 & 1)) printf("UD\n"); // the instruction is undefined without OSXSAVE
	r[0] = r[2] == 0 ? m_xcr0 : m_garbage;
	r[3] = m_garbage;
}
asm(".text\n"
    ".macro VHCALL name, target\n"
    ".globl \\name\n"
    "\\name:\n"
    "pushfq\n push %rbp\n push %rsi\n push %rdi\n push %r8\n push %r9\n push %r10\n push %r11\n push %rdx\n push %rcx\n push %rbx\n push %rax\n"
    "mov %rsp, %rbp\n"
    "and $-16, %rsp\n"
    "sub $16, %rsp\n"
    "mov %eax, (%rsp)\n mov %ebx, 4(%rsp)\n mov %ecx, 8(%rsp)\n mov %edx, 12(%rsp)\n"
    "mov %rsp, %rdi\n"
    "call \\target\n"
    "mov (%rsp), %eax\n mov 4(%rsp), %ebx\n mov 8(%rsp), %ecx\n mov 12(%rsp), %edx\n"
    "mov %rbp, %rsp\n"
    "add $32, %rsp\n" // results replace rax, rbx, rcx, rdx
    "pop %r11\n pop %r10\n pop %r9\n pop %r8\n pop %rdi\n pop %rsi\n pop %rbp\n popfq\n"
    "ret\n"
    ".endm\n"
    "VHCALL vh_cpuid, vh_cpuid_c\n"
    ".globl vh_xgetbv\n"
    "vh_xgetbv:\n"
    "push %rbx\n"
    "call vh_xgetbv_all\n"
    "pop %rbx\n"
    "ret\n"
    "VHCALL vh_xgetbv_all, vh_xgetbv_c\n");
/* /proc/cpuinfo of the model: the first byte of a read may come in pieces */
int open(const char *path, int flags, ...)
{
	load();
	printf("O %s\n", path);
	m_pos = 0;
	return 77;
}
int open64(const char *path, int flags, ...) { return open(path, flags); }
ssize_t read(int fd, void *p, size_t n)
{
	const size_t len = strlen(m_info) - m_pos;
	if (n > len) n = len;
	memcpy(p, m_info + m_pos, n);
	m_pos += n;
	return (ssize_t) n;
}
int close(int fd) { return 0; }
