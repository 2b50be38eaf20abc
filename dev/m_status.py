M = [
("ins-ignored","status","status-ignored",[("src/trunk.c","   platform_status rc = trunk_memtable_insert(spl, tuple_key, data);\n   if (!SUCCESS(rc)) {\n      goto out;\n   }\n","   platform_status rc = STATUS_OK;\n   trunk_memtable_insert(spl, tuple_key, data);\n")]),
("ins-swallow","status","status-swallowed",[("src/memtable.c","""                                     leaf_generation,
                                     &was_unique);
   if (!SUCCESS(rc)) {
      return rc;""","""                                     leaf_generation,
                                     &was_unique);
   if (!SUCCESS(rc)) {
      return STATUS_OK;""")]),
("short-read","status","status-short-io",[("src/platform_linux/laio.c","   ret = pread(io->fd, buf, bytes, addr);\n   if (ret == bytes) {","   ret = pread(io->fd, buf, bytes, addr);\n   if (ret > 0) {")]),
("short-write2","status","status-short-io",[("src/platform_linux/laio.c","   ret = pwrite(io->fd, buf, bytes, addr);\n   if (ret == bytes) {","   ret = pwrite(io->fd, buf, bytes, addr);\n   if (ret != -1) {")]),
("read-refactor","status",None,[("src/platform_linux/laio.c","   ret = pread(io->fd, buf, bytes, addr);\n   if (ret == bytes) {\n      return STATUS_OK;\n   }\n   return STATUS_IO_ERROR;","   ret = pread(io->fd, buf, bytes, addr);\n   if (ret < (int)bytes) {\n      return STATUS_IO_ERROR;\n   }\n   return STATUS_OK;")]),
("read-refactor2","status",None,[("src/platform_linux/laio.c","   ret = pread(io->fd, buf, bytes, addr);\n   if (ret == bytes) {\n      return STATUS_OK;\n   }\n   return STATUS_IO_ERROR;","   ret = pread(io->fd, buf, bytes, addr);\n   return ret == bytes ? STATUS_OK : STATUS_IO_ERROR;")]),
("aio-res","status","status-ignored",[("src/platform_linux/laio.c","   if (res < 0) {\n      platform_error_log(\"async IO failed: %s\\n\", strerror(-res));\n      status = STATUS_IO_ERROR;\n   }\n","")]),
("unmount-write","status","status-ignored",[("src/rc_allocator.c","   status =\n      io_write(al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);\n   platform_assert_status_ok(status);","   (void)status; io_write(al->io, al->ref_count, io_size, al->cfg->io_cfg->extent_size);")]),
("lookup-swallow","status","status-swallowed",[("src/splinterdb.c","   status = trunk_lookup(kvs->spl, target, &_result->value);\n   return platform_status_to_int(status);","   status = trunk_lookup(kvs->spl, target, &_result->value);\n   if (!SUCCESS(status)) {\n      return 0;\n   }\n   return platform_status_to_int(status);")]),
("lookup-ref","status",None,[("src/splinterdb.c","   status = trunk_lookup(kvs->spl, target, &_result->value);\n   return platform_status_to_int(status);","   status = trunk_lookup(kvs->spl, target, &_result->value);\n   if (SUCCESS(status)) {\n      return 0;\n   }\n   return platform_status_to_int(status);")]),
("overwritten","status","status-ignored",[("src/merge.c","         rc = iterator_prev(merge_itor->ordered_iterators[i]->itor);\n         if (!SUCCESS(rc)) {\n            return rc;\n         }\n","         rc = iterator_prev(merge_itor->ordered_iterators[i]->itor);\n")]),
]
