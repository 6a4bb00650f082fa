/* Layout of the plan / disk / result image shared between the harness and the simulated process.
   Mirrored by harness/src/image.rs. Everything is little endian and naturally aligned. */
#ifndef ZKSIM_H
#define ZKSIM_H
#include <stddef.h>
#include <stdint.h>
#define MAGIC 0x7a6b73696d303130ull
#define NFILES 160
#define PATHLEN 256
#define FILECAP (8u << 20)
#define NFAULTS 256
#define NPREEMPT 8192
#define NLOG 4096
#define OUTCAP (1u << 20)
#define MAXTHR 16
#define NMOVES 16

enum { CL_OPEN_R, CL_OPEN_W, CL_READ, CL_WRITE, CL_STDIO, CL_CLOSE, CL_SYNC, CL_NS /* rename, unlink, mkdir, rmdir, link, truncate */,
       CL_STAT, CL_SEEK, CL_ALLOC, CL_THREAD, NCLASS };
enum { FK_NONE, FK_ERRNO, FK_SHORT, FK_ZERO, FK_CRASH_BEFORE, FK_CRASH_AFTER, FK_CRASH_INSIDE };

struct fault { uint32_t cls, kind; uint64_t nth, count; int64_t arg; uint64_t fired; };
struct preempt { uint64_t step; uint32_t target, micro; };   /* micro: single-step this many instructions first */
/* another program renames a file, just before this file operation */
struct move { uint64_t op; char from[PATHLEN], to[PATHLEN]; uint64_t done; };
struct file {
  char path[PATHLEN];
  uint8_t kind;      /* 0 free, 1 file, 2 dir */
  uint8_t outside;   /* lies outside the simulated root (an escape, kept virtual) */
  uint8_t noread, nowrite;
  uint8_t unlinked;  /* removed but still open */
  uint8_t created;   /* created by this process */
  uint8_t touched;   /* written, truncated, renamed over by this process */
  uint8_t holders;   /* processes that hold it open, one bit each */
  uint32_t extent;   /* index of the data extent */
  uint32_t ino;
  uint64_t size;
  uint32_t lockp;    /* process that holds its lock, from 1 */
  uint32_t pad;
};
struct logent { uint8_t op, thr; uint16_t file; int32_t res; uint64_t arg; };

struct image {
  uint64_t magic;
  /* ---- plan ---- */
  uint64_t seed;            /* getrandom, pids */
  uint64_t clock0, clock_step;
  int64_t clock_jump;  uint64_t clock_jump_at; /* after that many clock reads */
  uint64_t capacity;        /* bytes the disk may hold, ~0 none */
  uint32_t capacity_errno;
  uint32_t pid;
  uint64_t layout_salt;     /* shifts the heap; fills fresh memory when non zero */
  uint64_t ambient;         /* processors, user, host, terminal, variables nobody planned: 0 plain */
  uint64_t max_ops, max_allocs, max_handles;
  uint64_t max_chunk_r, max_chunk_w; /* every transfer is at most this long, 0 none */
  uint32_t nfaults, npreempt;
  uint32_t nhot;            /* preemptions counted in hot points: everything but allocations */
  uint32_t sched_mode;      /* 0: run on until blocked; 1: rotate on block from seed */
  char cwd[PATHLEN];
  char root[PATHLEN];
  struct fault faults[NFAULTS];
  struct preempt preempts[NPREEMPT];
  struct preempt hots[NPREEMPT];
  uint32_t proc, nprocs;    /* which of the processes on this disk; 0 or 1: it has the disk alone */
  uint64_t nmoves;
  struct move moves[NMOVES];
  /* ---- results ---- */
  uint64_t opcount[NCLASS];
  uint64_t steps, switches, clock_now, loghash, rand_calls, clock_calls, threads;
  uint32_t crashed, deadlock, hang, unsupported;
  uint32_t nlog, nesc;
  uint32_t outlen[2];
  char esc[8][PATHLEN];     /* refused operations outside the root */
  char unsup[64];
  uint64_t bytes_used, wait_blocks, micro_steps, futex_waits, nospace, hot, atomics, statics, live, slept;
  struct logent log[NLOG];
  char out[2][OUTCAP];
  /* ---- the disk, which all processes share ---- */
  uint32_t nextino __attribute__((aligned(4096)));
  uint32_t nfiles_used;
  uint32_t extent_used[NFILES];
  struct file files[NFILES];
  /* data extents follow, page aligned */
};
#define DATA_OFF (((sizeof(struct image)) + 4095ull) & ~4095ull)
#define DISK_OFF (offsetof(struct image, nextino))
#define IMAGE_SIZE (DATA_OFF + (uint64_t)NFILES * FILECAP)
#endif
