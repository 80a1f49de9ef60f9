#ifndef INTERPOSE_H
#define INTERPOSE_H
void iv_reset(void);
void iv_watch(const char *prefix);
void iv_trace(int on);
void iv_fault(long nth, const char *mode, const char *cls, long count);
long iv_injected(void);
void iv_begin(void);
void iv_end(void);
long iv_calls(void);
const char *iv_trace_json(void);
void iv_memfail(long nth, long count);
long iv_mem_calls(void);
void iv_fill(int byte);
long iv_live(void);
long iv_live_bytes(void);
#endif
