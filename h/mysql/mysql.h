// Stand-in for the MySQL client library: the calls CMySql makes, answered by h/mysql.cpp.
#ifndef VERIF_MYSQL_H
#define VERIF_MYSQL_H
typedef char my_bool; typedef char **MYSQL_ROW; typedef unsigned long long my_ulonglong;
struct MYSQL { unsigned magic; int conn; unsigned err; char msg[64]; unsigned opt[4]; char charset[16]; char *probe; };
struct MYSQL_FIELD { char *name; char *org_name; char *table; unsigned long length; };
struct MYSQL_RES;
enum mysql_option { MYSQL_OPT_CONNECT_TIMEOUT, MYSQL_OPT_COMPRESS, MYSQL_OPT_NAMED_PIPE, MYSQL_INIT_COMMAND, MYSQL_SET_CHARSET_NAME = 7, MYSQL_OPT_READ_TIMEOUT = 11, MYSQL_OPT_WRITE_TIMEOUT = 12, MYSQL_OPT_RECONNECT = 20 };
#define CLIENT_MULTI_STATEMENTS (1UL << 16)
#define CLIENT_MULTI_RESULTS (1UL << 17)
extern "C" {
MYSQL *mysql_init(MYSQL *); int mysql_options(MYSQL *, enum mysql_option, const void *);
MYSQL *mysql_real_connect(MYSQL *, const char *, const char *, const char *, const char *, unsigned, const char *, unsigned long);
void mysql_close(MYSQL *); int mysql_select_db(MYSQL *, const char *); unsigned mysql_errno(MYSQL *); const char *mysql_error(MYSQL *);
int mysql_real_query(MYSQL *, const char *, unsigned long); int mysql_query(MYSQL *, const char *); unsigned mysql_field_count(MYSQL *); my_ulonglong mysql_affected_rows(MYSQL *);
MYSQL_RES *mysql_store_result(MYSQL *); MYSQL_FIELD *mysql_fetch_field(MYSQL_RES *); MYSQL_FIELD *mysql_fetch_fields(MYSQL_RES *); unsigned mysql_num_fields(MYSQL_RES *); my_ulonglong mysql_num_rows(MYSQL_RES *);
MYSQL_ROW mysql_fetch_row(MYSQL_RES *); unsigned long *mysql_fetch_lengths(MYSQL_RES *); void mysql_free_result(MYSQL_RES *);
unsigned long mysql_real_escape_string(MYSQL *, char *, const char *, unsigned long); int mysql_ping(MYSQL *); int mysql_set_character_set(MYSQL *, const char *);
}
#endif
