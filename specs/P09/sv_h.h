/* the server side of one client: blocks built and written are counted */
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <assert.h>
#include <pthread.h>
#include "vpdb.h"
#define pthread_mutex_t int
#define pthread_cond_t int
#define NBSP_GLOBALS_DEF
#include "globals.h"
#include "err.h"
#include "const.h"
#include "libconnth/libconn.h"
#include "packfpu.h"
#include "emwin.h"
#include "nbs1.h"
#define SFILTER_H
static void vp_log(int l, ...){ }
#define log_info(...) vp_log(0, __VA_ARGS__)
#define log_errx(...) vp_log(0, __VA_ARGS__)
#define log_err(...) vp_log(0, __VA_ARGS__)
#define log_err2(...) vp_log(0, __VA_ARGS__)
#define log_err2u(...) vp_log(0, __VA_ARGS__)
#define log_err_db(...) vp_log(0, __VA_ARGS__)
#define log_err2_db(...) vp_log(0, __VA_ARGS__)
#define log_err_write(...) vp_log(0, __VA_ARGS__)
#define log_msg(...) vp_log(__VA_ARGS__)
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
#define pthread_cleanup_push(f, a) (void)(a)
#define pthread_cleanup_pop(x) (void)0
struct nbsp_globals g;
static struct conn_element_st *CE; static int FD, FD0, NBL, GB, GS, vp_open, vp_initr, vp_lost, vp_fail, vp_tmo, vp_retry, vp_unr, vp_dropped, vp_ups; static void *vp_pkt; static uint32_t vp_pks; static char vp_fpath[2], vp_fname[2], vp_nip[2];
#define VP_STATE FD, GB, GS, vp_open, vp_lost, vp_fail, vp_dropped, vp_ups
int conn_element_get_fd(struct conn_element_st *c){ CLAIM(c == CE, "the client"); return FD; } void conn_element_set_fd(struct conn_element_st *c, int f){ CLAIM(c == CE, "the client"); FD = f; } char *conn_element_get_nameorip(struct conn_element_st *c){ return vp_nip; }
int conn_element_get_write_timeout_ms(struct conn_element_st *c){ return vp_tmo; } int conn_element_get_write_timeout_retry(struct conn_element_st *c){ return vp_retry; }
int conn_element_set_connection_status(struct conn_element_st *c, int s){ CLAIM(c == CE && s == -1 && FD == -1, "a lost connection is marked as such"); int r = nondet_int(); if (r == 0) vp_dropped = 1; return r; } void conn_element_set_exit_flag(struct conn_element_st *c){ CLAIM(c == CE, "the client"); vp_dropped = 1; }
void conn_stats_update_packets(struct conn_stats_st *c, size_t n){ CLAIM(c == &CE->cs && !vp_lost, "a packet is counted when it was written"); vp_ups++; } void conn_stats_update_errors(struct conn_stats_st *c){ }
static void vp_sinit(void){ CE = malloc(sizeof *CE); ASSUME(CE != NULL); FD = FD0 = nondet_int(); ASSUME(FD >= 0); NBL = nondet_int(); ASSUME(NBL >= 0 && NBL <= 65535); GB = GS = vp_open = vp_lost = vp_fail = vp_dropped = vp_ups = 0; vp_initr = nondet_int(); vp_unr = nondet_int(); vp_tmo = nondet_int(); vp_retry = nondet_int(); vp_pkt = CE; vp_pks = nondet_uint(); g.f_debug = nondet_int(); }
