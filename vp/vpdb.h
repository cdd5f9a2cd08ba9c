/* The part of db.h (Berkeley DB 5.3) that nbsp uses, with the same names, types and constants; stands in for <db.h>
   because CBMC cannot handle the full DB structure. */
#ifndef _DB_H_
#define _DB_H_
#define _DB_EXT_PROT_IN_
#define _DB_EXT_DEF_IN_
#include <sys/types.h>
#include <stdint.h>
typedef struct __db DB; typedef struct __db_env DB_ENV; typedef struct __db_txn DB_TXN; typedef struct __dbc DBC; typedef struct __db_mpoolfile DB_MPOOLFILE; typedef struct __db_dbt DBT; typedef struct __db_queue_stat DB_QUEUE_STAT;
typedef enum { DB_BTREE = 1, DB_HASH = 2, DB_RECNO = 3, DB_QUEUE = 4, DB_UNKNOWN = 5 } DBTYPE;
typedef u_int32_t db_recno_t;
#undef DB_CREATE
#define DB_CREATE 0x00000001
#define DB_THREAD 0x00000020
#define DB_RDONLY 0x00000400
#define DB_APPEND 2
#define DB_CONSUME 4
#define DB_FIRST 7
#define DB_NEXT 16
#define DB_BUFFER_SMALL (-30999)
#define DB_KEYEXIST (-30994)
#define DB_NOTFOUND (-30988)
#define DB_DBT_MALLOC 0x010
#define DB_DBT_REALLOC 0x080
#define DB_DBT_USERMEM 0x800
#define DB_MPOOL_NOFILE 0x00000001
struct __db_dbt { void *data; u_int32_t size; u_int32_t ulen; u_int32_t dlen; u_int32_t doff; void *app_data; u_int32_t flags; };
struct __db_queue_stat { u_int32_t qs_nkeys; u_int32_t qs_ndata; };
struct __dbc { int (*c_get)(DBC *, DBT *, DBT *, u_int32_t); int (*c_close)(DBC *); int (*get)(DBC *, DBT *, DBT *, u_int32_t); int (*close)(DBC *); };
struct __db_mpoolfile { int (*set_flags)(DB_MPOOLFILE *, u_int32_t, int); };
struct __db {
  int (*close)(DB *, u_int32_t); int (*cursor)(DB *, DB_TXN *, DBC **, u_int32_t); int (*del)(DB *, DB_TXN *, DBT *, u_int32_t);
  int (*get)(DB *, DB_TXN *, DBT *, DBT *, u_int32_t); int (*put)(DB *, DB_TXN *, DBT *, DBT *, u_int32_t);
  int (*get_re_len)(DB *, u_int32_t *); DB_MPOOLFILE *(*get_mpf)(DB *);
  int (*open)(DB *, DB_TXN *, const char *, const char *, DBTYPE, u_int32_t, int);
  int (*set_bt_compare)(DB *, int (*)(DB *, const DBT *, const DBT *)); int (*set_cachesize)(DB *, u_int32_t, u_int32_t, int);
  int (*set_q_extentsize)(DB *, u_int32_t); int (*set_re_len)(DB *, u_int32_t); int (*set_pagesize)(DB *, u_int32_t); int (*set_flags)(DB *, u_int32_t);
  int (*stat)(DB *, DB_TXN *, void *, u_int32_t); int (*sync)(DB *, u_int32_t); int (*truncate)(DB *, DB_TXN *, u_int32_t *, u_int32_t); int (*exists)(DB *, DB_TXN *, DBT *, u_int32_t);
};
int db_create(DB **, DB_ENV *, u_int32_t);
char *db_strerror(int);
#endif
