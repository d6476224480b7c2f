// Shared between the pure C parts (dump.c, wrap.c, drivers) and the C++ harness.
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <sml/sml_file.h>
#include <sml/sml_message.h>
#include <sml/sml_transport.h>
#include <sml/sml_crc16.h>
#include <sml/sml_get_profile_pack_response.h>
#include <sml/sml_get_profile_list_response.h>
#include <sml/sml_attention_response.h>
#include <sml/sml_set_proc_parameter_request.h>
#include <sml/sml_tree.h>
#include <sml/sml_list.h>
#include <sml/sml_value.h>
#ifdef __cplusplus
extern "C" {
#endif

// ---- canonical dump of library objects (dump.c) ----
typedef struct {
	char *p;
	size_t len, cap;
} vf_out;
void vo_reset(vf_out *o);
void vo_free(vf_out *o);
void vo_str(vf_out *o, const char *s);
void vo_ch(vf_out *o, char c);

// dump options
enum { VD_ENC = 1 /* normalise what SML cannot express: empty string == absent, time without value == absent */ };

void vd_oct(vf_out *o, const octet_string *s, int opt);
void vd_u(vf_out *o, const char *pre, uint64_t v);
void vd_i(vf_out *o, const char *pre, int64_t v);
void vd_u8(vf_out *o, const u8 *p);
void vd_u16(vf_out *o, const u16 *p);
void vd_u32(vf_out *o, const u32 *p);
void vd_u64(vf_out *o, const u64 *p);
void vd_i8(vf_out *o, const i8 *p);
void vd_i16(vf_out *o, const i16 *p);
void vd_i32(vf_out *o, const i32 *p);
void vd_i64(vf_out *o, const i64 *p);
extern int vd_raw;
void vd_bool(vf_out *o, const sml_boolean *b);
void vd_value(vf_out *o, const sml_value *v, int opt);
void vd_status(vf_out *o, const sml_status *s);
void vd_time(vf_out *o, const sml_time *t, int opt);
void vd_tree(vf_out *o, const sml_tree *t, int opt);
void vd_path(vf_out *o, const sml_tree_path *t, int opt);
void vd_ppv(vf_out *o, const sml_proc_par_value *v, int opt);
void vd_tupel(vf_out *o, const sml_tupel_entry *t, int opt);
void vd_period(vf_out *o, const sml_period_entry *t, int opt);
void vd_list(vf_out *o, const sml_list *l, int opt);
void vd_hdr(vf_out *o, const sml_prof_obj_header_entry *e, int opt);
void vd_pope(vf_out *o, const sml_prof_obj_period_entry *e, int opt);
void vd_ventry(vf_out *o, const sml_value_entry *e, int opt);
void vd_bodydata(vf_out *o, uint32_t tag, const void *data, int opt);
void vd_body(vf_out *o, const sml_message_body *b, int opt);
void vd_message(vf_out *o, const sml_message *m, int opt); // without crc
void vd_file(vf_out *o, const sml_file *f, int opt); // one line per message

// ---- monitors (wrap.c) ----
extern int vf_track;            // >0: allocations belong to the library
void vf_enter(void);            // a call of the library begins: vf_track + 1; surroundings it must not depend on change
void vf_leave(void);            // ... and ends: vf_track - 1
extern unsigned long vf_world;  // differs from call to call: clock, environment, errno
extern unsigned char vf_fill;   // byte fresh memory is filled with
extern int vf_fill_on;
extern long vf_live_blocks, vf_live_bytes, vf_peak_bytes, vf_allocs;
extern unsigned long long vf_alloc_total, vf_moved_bytes;
extern long vf_alloc_cap;       // a single request above this aborts (0 = off)
void vf_mem_reset(void);        // forget statistics (not the live table)
long vf_fd_count(void);

// I/O plan for the library's read/write calls
typedef struct {
	int active;
	uint64_t rng;
	int short_reads;   // 1 in n reads is cut short (0 off)
	int eintr;         // 1 in n read() fail with EINTR
	int eagain;        // 1 in n read() fail with EAGAIN
	long fail_read_at; // n-th read call fails with EIO (-1 off)
	long fail_select_at;
	int select_eintr;  // 1 in n select/poll fails with EINTR
	long burst, burst_at; // the `burst` reads and polls from the burst_at-th on are interrupted or find nothing
	// write
	int wmode;         // 0 real, 1 short once then real, 2 EINTR once, 3 EIO, 4 returns 0, 5 accept k bytes then EIO
	long wk;           // bytes accepted in modes 1/5
	// log
	long reads, writes, eintrs, eagains, shorts, selects;
	size_t waccepted;
	void (*on_empty)(int fd); // called when the library is about to wait for input that has not been sent
} vf_io;
extern vf_io vf_ioplan;
extern unsigned char *vf_wlog; extern size_t vf_wlog_len;
#ifdef __cplusplus
}
#endif
#endif
