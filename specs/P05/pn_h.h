/* headers, log stubs and the db stand-in for the processor files */
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <assert.h>
#include <unistd.h>
#include <pthread.h>
#include "vpdb.h"
#define pthread_mutex_t int
#define pthread_cond_t int
#undef PTHREAD_MUTEX_INITIALIZER
#define PTHREAD_MUTEX_INITIALIZER 0
#define NBSP_GLOBALS_DEF
#include "globals.h"
#include "oscompat.h"
#include "err.h"
#include "sbn.h"
#include "nbspre.h"
static void vp_log(int l, ...){ }
#define log_info(...) vp_log(0, __VA_ARGS__)
#define log_warnx(...) vp_log(0, __VA_ARGS__)
#define log_errx(...) vp_log(0, __VA_ARGS__)
#define log_err(...) vp_log(0, __VA_ARGS__)
#define log_err2(...) vp_log(0, __VA_ARGS__)
#define log_err2u(...) vp_log(0, __VA_ARGS__)
#define log_err_open(...) vp_log(0, __VA_ARGS__)
#define log_err_write(...) vp_log(0, __VA_ARGS__)
#define log_verbose(...) vp_log(__VA_ARGS__)
#define log_debug(...) vp_log(0, __VA_ARGS__)
#define db_strerror(e) ((char *)"")
