/* Plan and result block shared between the orchestrator (Rust, sim/src/rt.rs) and the runtime. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

#define SIM_MAGIC 0x44535431u
#define SIM_MAXF 48
#define SIM_MAXCH 16
#define SIM_MAXGROW 32
#define SIM_MAXDEC 8192
#define SIM_MAXPRE 64
#define SIM_NOPS 16
#define SIM_NKINDS 16
#define SIM_COV 65536

enum { OP_OPEN, OP_READ, OP_STAT, OP_MMAP, OP_STDIN, OP_STDOUT, OP_SEEK, OP_THREAD, OP_ALLOC, OP_SPAWN };
enum { K_SHORT = 1, K_EINTR, K_EIO, K_ENOSPC, K_EPIPE, K_ENOENT, K_EACCES, K_EMFILE, K_ENOMEM, K_ENODEV,
       K_STALL, K_EFBIG, K_WRONGHINT, K_GROW, K_PREEMPT };

typedef struct { uint32_t op, kind, nth, pad; uint64_t arg; } SimFault;
typedef struct { uint64_t at_op, len; } SimGrow;

typedef struct {
  /* ---- plan ---- */
  uint32_t magic, cli, ncpu, trace_on;
  uint64_t seed;             /* getrandom() stream */
  uint64_t step_limit;
  uint64_t file_len;         /* visible length when the run starts */
  uint64_t file_cap;         /* bytes of the file that can become visible (>= file_len; growth reveals them) */
  uint64_t hole_at, hole_len; /* a hole in the file: zeros that the file area does not hold (whole processes only) */
  uint64_t block_len, off_block; /* the hole is filled with this block, again and again (0: zeros) */
  uint64_t stdin_len;
  int64_t  read_err_at;      /* file offset at which reads fail, -1: never */
  int64_t  stdin_err_at;
  int64_t  stdout_err_at;    /* bytes accepted before stdout fails, -1: never */
  uint32_t read_errno, stdin_errno, stdout_errno, nfaults;
  uint32_t nread_ch, nstdin_ch, nstdout_ch, ngrow;
  uint32_t read_ch[SIM_MAXCH], stdin_ch[SIM_MAXCH], stdout_ch[SIM_MAXCH]; /* 0: unlimited */
  SimGrow  grow[SIM_MAXGROW];
  SimFault faults[SIM_MAXF];
  uint32_t ndec, npre;
  uint64_t pre[SIM_MAXPRE];  /* steps at which the running thread is preempted */
  uint8_t  dec[SIM_MAXDEC];  /* scheduler choices */
  uint64_t mem_limit;        /* bytes of heap the process may hold at a time, 0: any number (cli only) */
  /* offsets of the data areas in the shared memory file (cli only) */
  uint64_t off_cov, off_trace, off_stdout, off_stderr, off_stdin, off_file;
  uint64_t cap_trace, cap_stdout, cap_stderr;
  /* ---- result ---- */
  uint32_t done, reason;     /* reason: 0 ran to its own exit, 1 step limit, 2 deadlock, 3 runtime limit */
  uint64_t steps, switches, preempted, decisions, vclock_ns, nthreads;
  uint64_t stdout_len, stderr_len, trace_len, trace_hash;
  uint64_t stdin_taken, multi_from, multi_to;
  int64_t  heap, heap_peak;
  uint64_t nops[SIM_NOPS];
  uint64_t fired[SIM_NOPS][SIM_NKINDS];
} SimPlan;
#endif
