/* Scheduling points for C21: calls of the extension into CPython at which other Python code may run.
 *
 * Every GOT entry of the extension that names such a function is redirected to a stub which first calls the
 * registered Python callback (GIL held, pending exception set aside) and then jumps to the real function.
 * Loaded with ctypes.PyDLL.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

typedef void PyObject;
extern PyObject *PyObject_CallFunction(PyObject *f, const char *fmt, ...);
extern void PyErr_Fetch(PyObject **, PyObject **, PyObject **);
extern void PyErr_Restore(PyObject *, PyObject *, PyObject *);
extern void PyErr_WriteUnraisable(PyObject *);
extern int PyGILState_Check(void);
extern void Py_IncRef(PyObject *);
extern void Py_DecRef(PyObject *);

static const char *const EXACT[] = {
    "PyTuple_New", "PyTuple_Pack", "PyList_New", "PyDict_New", "PyDict_Copy", "PySet_New", "PyFrozenSet_New", "PyList_AsTuple",
    "PyErr_SetObject", "PyErr_SetString", "PyErr_NormalizeException", "PyErr_CheckSignals", "PyGC_Collect", "PyIter_Next", "PyIter_Send",
    "PyType_GenericAlloc", "PyType_GenericNew", "PyEval_SaveThread", "PyEval_RestoreThread", "PyGILState_Ensure", "PyErr_Format", "PyErr_WarnEx", NULL};
static const char *const PREFIX[] = {"PyObject_Call", "PyObject_GetAttr", "PyObject_GetItem", "PyObject_GetIter", "PyObject_Repr", "PyObject_Str",
    "PyObject_SetAttr", "PyObject_SetItem", "PyObject_DelItem", "PyObject_IsInstance", "PyObject_IsSubclass", "PyObject_IsTrue",
    "PyObject_RichCompare", "PyObject_Size", "PyObject_Hash", "PyObject_Vectorcall", "PySequence_", "PyMapping_", "PyNumber_",
    "PyImport_", "PyDict_SetItem", "PyDict_GetItem", "PyRun_", NULL};

static int wanted(const char *n) {
    for (int i = 0; EXACT[i]; i++)
        if (!strcmp(n, EXACT[i])) return 1;
    for (int i = 0; PREFIX[i]; i++)
        if (!strncmp(n, PREFIX[i], strlen(PREFIX[i]))) return 1;
    return 0;
}

#define MAX 200
static const char *names[MAX];
void *hook_real[MAX];
static int count;
static PyObject *callback;
static __thread int busy;
static uint64_t hits[MAX];
static int64_t failures;

void hook_before(long idx) {
    if (!callback || busy || !PyGILState_Check()) return;
    busy = 1;
    hits[idx]++;
    PyObject *t, *v, *b;
    PyErr_Fetch(&t, &v, &b);
    PyObject *cb = callback;
    Py_IncRef(cb);
    PyObject *r = PyObject_CallFunction(cb, "s", names[idx]);
    if (r) Py_DecRef(r);
    else { failures++; PyErr_WriteUnraisable(cb); }
    Py_DecRef(cb);
    PyErr_Restore(t, v, b);
    busy = 0;
}
/* The callback may run library code that hits points itself (nested re-entry). */
void hook_allow(int nested) { busy = !nested; }

__asm__(
    ".text\n"
    ".globl hook_common\n"
    "hook_common:\n"            /* stack: index, return address of the caller */
    "  push %rbp\n  mov %rsp,%rbp\n"
    "  push %rdi\n  push %rsi\n  push %rdx\n  push %rcx\n  push %r8\n  push %r9\n  push %rax\n  push %r10\n  push %r11\n  push %rbx\n"
    "  and $-16,%rsp\n"
    "  sub $128,%rsp\n"
    "  movups %xmm0,(%rsp)\n  movups %xmm1,16(%rsp)\n  movups %xmm2,32(%rsp)\n  movups %xmm3,48(%rsp)\n"
    "  movups %xmm4,64(%rsp)\n  movups %xmm5,80(%rsp)\n  movups %xmm6,96(%rsp)\n  movups %xmm7,112(%rsp)\n"
    "  mov 8(%rbp),%rdi\n"
    "  call hook_before@PLT\n"
    "  movups (%rsp),%xmm0\n  movups 16(%rsp),%xmm1\n  movups 32(%rsp),%xmm2\n  movups 48(%rsp),%xmm3\n"
    "  movups 64(%rsp),%xmm4\n  movups 80(%rsp),%xmm5\n  movups 96(%rsp),%xmm6\n  movups 112(%rsp),%xmm7\n"
    "  lea -80(%rbp),%rsp\n"
    "  pop %rbx\n  pop %r11\n  pop %r10\n  pop %rax\n  pop %r9\n  pop %r8\n  pop %rcx\n  pop %rdx\n  pop %rsi\n  pop %rdi\n"
    "  mov 8(%rbp),%r11\n"
    "  pop %rbp\n"
    "  add $8,%rsp\n"
    "  push %rax\n"
    "  mov hook_real@GOTPCREL(%rip),%rax\n"
    "  mov (%rax,%r11,8),%r11\n"
    "  pop %rax\n"
    "  jmp *%r11\n");
extern void hook_common(void);

static unsigned char *stubs;
static void *stub(int i) {
    unsigned char *p = stubs + i * 32, *s = p;
    *p++ = 0x68; /* push imm32 */
    memcpy(p, &i, 4); p += 4;
    *p++ = 0x49; *p++ = 0xBB; /* movabs r11 */
    void *c = (void *)hook_common;
    memcpy(p, &c, 8); p += 8;
    *p++ = 0x41; *p++ = 0xFF; *p++ = 0xE3; /* jmp *r11 */
    return s;
}

/* Points after the interpreter has been given back to this thread: others ran in between. */
static int after_restore, after_ensure;
static void (*real_restore)(void *);
static int (*real_ensure)(void);
static void wrap_restore(void *ts) { real_restore(ts); hook_before(after_restore); }
static int wrap_ensure(void) { int r = real_ensure(); hook_before(after_ensure); return r; }

static int patch(struct dl_phdr_info *info, size_t size, void *data) {
    (void)size;
    if (!info->dlpi_name || !strstr(info->dlpi_name, (const char *)data)) return 0;
    const ElfW(Dyn) *dyn = NULL;
    for (int k = 0; k < info->dlpi_phnum; k++)
        if (info->dlpi_phdr[k].p_type == PT_DYNAMIC) dyn = (void *)(info->dlpi_addr + info->dlpi_phdr[k].p_vaddr);
    if (!dyn) return 1;
    const ElfW(Sym) *sym = NULL;
    const char *str = NULL;
    const ElfW(Rela) *rela[2] = {0};
    size_t n[2] = {0};
    for (; dyn->d_tag; dyn++) {
        uintptr_t a = dyn->d_un.d_ptr;
        if (a < info->dlpi_addr) a += info->dlpi_addr;
        if (dyn->d_tag == DT_SYMTAB) sym = (void *)a;
        if (dyn->d_tag == DT_STRTAB) str = (void *)a;
        if (dyn->d_tag == DT_RELA) rela[0] = (void *)a;
        if (dyn->d_tag == DT_JMPREL) rela[1] = (void *)a;
        if (dyn->d_tag == DT_RELASZ) n[0] = dyn->d_un.d_val / sizeof(ElfW(Rela));
        if (dyn->d_tag == DT_PLTRELSZ) n[1] = dyn->d_un.d_val / sizeof(ElfW(Rela));
    }
    for (int k = 0; k < 2; k++)
        for (size_t i = 0; i < n[k]; i++) {
            unsigned long type = ELF64_R_TYPE(rela[k][i].r_info);
            if (type != R_X86_64_GLOB_DAT && type != R_X86_64_JUMP_SLOT && type != R_X86_64_64) continue;
            const char *name = str + sym[ELF64_R_SYM(rela[k][i].r_info)].st_name;
            if (!wanted(name)) continue;
            int at = 0;
            while (at < count && strcmp(names[at], name)) at++;
            if (at == MAX) continue;
            void **slot = (void **)(info->dlpi_addr + rela[k][i].r_offset);
            if (at == count) {
                void *real = dlsym(RTLD_DEFAULT, name);
                if (!real) continue;
                names[at] = name;
                hook_real[at] = real;
                count++;
            }
            uintptr_t page = (uintptr_t)slot & ~4095UL;
            mprotect((void *)page, 4096, PROT_READ | PROT_WRITE); /* slots are aligned: one page */
            if (!strcmp(name, "PyEval_RestoreThread")) {
                after_restore = at;
                real_restore = (void (*)(void *))hook_real[at];
                *slot = (void *)wrap_restore;
            } else if (!strcmp(name, "PyGILState_Ensure")) {
                after_ensure = at;
                real_ensure = (int (*)(void))hook_real[at];
                *slot = (void *)wrap_ensure;
            } else
                *slot = stub(at);
        }
    return 1;
}

/* Redirect the entries of the loaded object whose path contains `part`; the number of functions. */
int hook_install(const char *part) {
    stubs = mmap(NULL, MAX * 32, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (stubs == MAP_FAILED) return -1;
    dl_iterate_phdr(patch, (void *)part);
    return count;
}
void hook_set(PyObject *cb) {
    PyObject *old = callback;
    if (cb) Py_IncRef(cb);
    callback = cb;
    if (old) Py_DecRef(old);
}
int hook_count(void) { return count; }
const char *hook_name(int i) { return names[i]; }
uint64_t hook_hits(int i) { return hits[i]; }
int64_t hook_failures(void) { return failures; }
