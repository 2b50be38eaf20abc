// opens a small store in the current (scratch) directory
#include "splinterdb.c"
#include "splinterdb/default_data_config.h"
#include <stdio.h>
#include <string.h>
#define FAIL(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
static data_config demo_dcfg; static splinterdb *kvs; static splinterdb_config demo_cfg;
static void demo_cfg_init(void)
{
   default_data_config_init(64, &demo_dcfg);
   memset(&demo_cfg, 0, sizeof(demo_cfg));
   demo_cfg.filename = "demo.db"; demo_cfg.disk_size = 512 * 1024 * 1024; demo_cfg.cache_size = 128 * 1024 * 1024; demo_cfg.data_cfg = &demo_dcfg;
   demo_cfg.memtable_capacity = 2 * 1024 * 1024;
   demo_cfg.use_shmem = 0;
}
static void demo_open(void)
{
   platform_set_log_streams(fopen("/dev/null", "w"), stderr);
   demo_cfg_init();
   if (splinterdb_create(&demo_cfg, &kvs)) FAIL("create");
}
static int demo_put(unsigned long i, const char *v)
{
   char k[32]; snprintf(k, sizeof k, "key%012lu", i);
   return splinterdb_insert(kvs, slice_create(strlen(k), k), slice_create(strlen(v), v));
}
// 0 found, 1 not found
static int demo_get(unsigned long i, const char *v)
{
   char k[32]; snprintf(k, sizeof k, "key%012lu", i);
   splinterdb_lookup_result r; splinterdb_lookup_result_init(kvs, &r, 0, NULL);
   if (splinterdb_lookup(kvs, slice_create(strlen(k), k), &r)) FAIL("lookup status");
   slice val; int rc = 1;
   if (splinterdb_lookup_found(&r)) { splinterdb_lookup_result_value(&r, &val); rc = !(slice_length(val) == strlen(v) && !memcmp(slice_data(val), v, strlen(v))) * 2; }
   splinterdb_lookup_result_deinit(&r);
   return rc;
}
static cache_ops demo_ops; static const cache_ops *orig_ops;
static void demo_wrap(void) { orig_ops = kvs->cache_handle.super.ops; demo_ops = *orig_ops; kvs->cache_handle.super.ops = &demo_ops; }
