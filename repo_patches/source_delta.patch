From b0a857ab7b063281cc5a353f2da1ef6cb6ff6170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 01/67] fix: keep the original string when compacting it runs
 out of memory

---
 src/handlebars_string.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 690bd62..47fb999 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -322,7 +322,10 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
     size_t size = HBS_STR_SIZE(string->len);
     if( talloc_get_size(string) > size ) {
         string = separate_string(string);
-        string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        struct handlebars_string * compacted = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        if( compacted ) {
+            string = compacted;
+        }
     }
     return string;
 }
-- 
2.43.0


From 435f4b8ce7606d45a9b6a75f454e776ed5e762c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 02/67] fix: report out of memory when a closure cannot be
 allocated

---
 src/handlebars_closure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_closure.c b/src/handlebars_closure.c
index 404ea63..a0eebd6 100644
--- a/src/handlebars_closure.c
+++ b/src/handlebars_closure.c
@@ -83,6 +83,7 @@ struct handlebars_closure * handlebars_closure_ctor(
     struct handlebars_value * localv
 ) {
     struct handlebars_closure * closure = handlebars_talloc_zero_size(vm, sizeof(struct handlebars_closure) + (sizeof(struct handlebars_value) * localc));
+    HANDLEBARS_MEMCHECK(closure, HBSCTX(vm));
     talloc_set_type(closure, struct handlebars_closure);
 #ifndef HANDLEBARS_NO_REFCOUNT
     handlebars_rc_init(&closure->rc);
-- 
2.43.0


From d56455a8b08b596e07ee64f72b4d9e8d50bbe88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 03/67] fix: report out of memory when a module cannot be
 allocated

---
 src/handlebars_opcode_serializer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index c21dfb5..f10367b 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -241,6 +241,7 @@ struct handlebars_module * handlebars_program_serialize(
 ) {
     // Allocate initial buffer
     struct handlebars_module * module = handlebars_talloc_zero(context, struct handlebars_module);
+    HANDLEBARS_MEMCHECK(module, context);
     memcpy(&module->header, "HBSCM", sizeof("HBSCM"));
     module->version = handlebars_version();
     module->flags = program->flags;
@@ -251,6 +252,7 @@ struct handlebars_module * handlebars_program_serialize(
 
     // Reallocate buffer
     module = handlebars_talloc_realloc_size(context, module, module->size);
+    HANDLEBARS_MEMCHECK(module, context);
     module->addr = (void *) module;
     talloc_set_type(module, struct handlebars_module);
 
-- 
2.43.0


From 264e8a8e8a994b8f4244ef2e990bbd7c76f1cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 04/67] fix: report out of memory when a partial cannot be read

---
 src/handlebars_partial_loader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index a12ff28..1d70338 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -110,6 +110,10 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
     fseek(f, 0, SEEK_SET);
 
     char * buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
+    if( !buf ) {
+        fclose(f);
+    }
+    HANDLEBARS_MEMCHECK(buf, intern->user.ctx);
     size_t read = fread(buf, size, 1, f);
     fclose(f);
 
-- 
2.43.0


From 14e916a52a858209917b6e9aa41adf6aa7832782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 05/67] fix: report out of memory when the LMDB cache cannot
 copy a module

---
 src/handlebars_cache_lmdb.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 36f7745..61c1312 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -169,6 +169,10 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     // Duplicate data
     size = module->size;
     module = handlebars_talloc_size(cache, size);
+    if( !module ) {
+        mdb_txn_abort(txn);
+    }
+    HANDLEBARS_MEMCHECK(module, CONTEXT);
     talloc_set_type(module, struct handlebars_module);
     memcpy(module, data.mv_data, size);
 
@@ -218,6 +222,10 @@ static void cache_add(
 
     // Normalize pointers
     module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    if( !module_copy ) {
+        mdb_txn_abort(txn);
+    }
+    HANDLEBARS_MEMCHECK(module_copy, CONTEXT);
     talloc_set_type(module_copy, struct handlebars_module);
     memcpy(module_copy, module, module->size);
     handlebars_module_patch_pointers(module_copy);
-- 
2.43.0


From 7ac2d2a89649b49b909b5a7bb8fc6d38f13a9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 06/67] fix: report out of memory when a partial's context
 cannot be allocated

---
 src/handlebars_vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 114b227..4a02482 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -330,6 +330,7 @@ static struct handlebars_string * execute_template(
     bool use_delimiters
 ) {
     struct handlebars_context * context = handlebars_context_ctor_ex(vm);
+    HANDLEBARS_MEMCHECK(context, CONTEXT);
     struct handlebars_string * volatile retval = NULL;
     struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
     bool const from_cache = module != NULL;
-- 
2.43.0


From 72447af9e282e329cf20b3a945a842474209a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:55 +0000
Subject: [PATCH 07/67] fix: lookup of an out-of-range array index crashed

---
 src/handlebars_helpers.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0168746..658059c 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -265,7 +265,10 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
     } else if( type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
         // @todo sscanf?
         if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_INTEGER ) {
-            rv = handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+            struct handlebars_value * found = handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+            if( found ) {
+                rv = found;
+            }
         }
     }
 
-- 
2.43.0


From d555c99e9cef007c2854bcc1dabf586246638c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 08/67] fix: @partial-block outside of a partial block crashed

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 4a02482..cf5e2f9 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -993,7 +993,7 @@ ACCEPT_FUNCTION(lookup_data)
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
         handlebars_value_value(val, TOP(vm->contextStack));
-    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block"))) {
+    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
         goto done_and_err;
-- 
2.43.0


From 3dedac84d6616891fc3eca5e80d755e0ff084614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 09/67] fix: delimiter change without a closing delimiter
 crashed

---
 src/handlebars_delimiters.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index c7340fa..e905efa 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -170,10 +170,15 @@ struct handlebars_string * handlebars_preprocess_delimiters(
 
                 // Scan backwards while whitespace
                 pce = p - 1;
-                while( *pce == ' ' ) {
+                while( pce >= pc && *pce == ' ' ) {
                     pce--;
                 }
 
+                // Empty
+                if( pce < pc ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "Delimiter change must contain a closing delimiter");
+                }
+
                 // Save new close tag
                 new_close = handlebars_string_ctor(ctx, pc, pce - pc + 1);
 
-- 
2.43.0


From b02db85ffd7c85453afaa886b843c1a3b0352964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 10/67] fix: trailing backslash made the delimiter preprocessor
 read past the template

---
 src/handlebars_delimiters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index e905efa..3ee5922 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -88,7 +88,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
             default: // Default
             case 0: state0:
                 // If current character is a slash, skip one character
-                if( *p == '\\' ) {
+                if( *p == '\\' && i > 1 ) {
                     append(p, 1);
                     move_forward(1);
                     append(p, 1);
-- 
2.43.0


From df2094104fd2ec0daf29f75f7c68884d842d64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 11/67] fix: deeply nested templates overflowed the compiler's
 fixed-size stacks

---
 src/handlebars_compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 933770e..d83abad 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -691,7 +691,7 @@ static inline void handlebars_compiler_accept_program(
 
     assert(compiler != NULL);
 
-    if( compiler->bps->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->bps->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Block param stack blown");
     }
     compiler->bps->s[compiler->bps->i].block_param1 = block_param1;
@@ -1367,7 +1367,7 @@ static void handlebars_compiler_accept(
     }
 
     // Add node to source node stack
-    if( compiler->sns->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->sns->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Source node stack blown");
     }
     compiler->sns->s[compiler->sns->i] = node;
-- 
2.43.0


From fa9b3d818775de621b9e035a0176ee8af013fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 12/67] fix: restore the VM after a failed render when the
 caller handles the error

---
 src/handlebars_vm.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index cf5e2f9..367c2a3 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1391,16 +1391,20 @@ struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_value * prev_last_context = vm->last_context;
     struct handlebars_string * prev_delim_open = vm->delim_open;
     struct handlebars_string * prev_delim_close = vm->delim_close;
+    struct handlebars_string * prev_buffer = vm->buffer;
+    HANDLEBARS_VALUE_DECL(prev_data);
 
     struct handlebars_string * buffer = NULL;
     bool volatile setup_stacks = false;
+    bool volatile failed = false;
     jmp_buf buf;
 
+    handlebars_value_value(prev_data, &vm->data);
+
     // Save jump buffer
-    if( !prev ) {
-        if( handlebars_setjmp_ex(vm, &buf) ) {
-            goto done;
-        }
+    if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
+        goto done;
     }
 
     // Setup stacks
@@ -1443,6 +1447,17 @@ done:
     vm->module = prev_module;
     vm->flags = prev_flags;
 
+    if (failed) {
+        vm->buffer = prev_buffer;
+        handlebars_value_value(&vm->data, prev_data);
+    }
+    HANDLEBARS_VALUE_UNDECL(prev_data);
+
+    // Pass the error on to the caller's error handler, if there is one
+    if (failed && prev) {
+        handlebars_rethrow(CONTEXT, CONTEXT);
+    }
+
     return buffer;
 }
 
-- 
2.43.0


From ce0586f2acb3b5f366541d13ac6e266354bb6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 13/67] fix: an error in a partial was swallowed and corrupted
 the output

---
 src/handlebars_vm.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 367c2a3..7a6e38d 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -336,6 +336,7 @@ static struct handlebars_string * execute_template(
     bool const from_cache = module != NULL;
     long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
+    bool volatile failed = false;
     jmp_buf buf;
 
     handlebars_string_addref(tmpl);
@@ -347,9 +348,13 @@ static struct handlebars_string * execute_template(
 
     // Save jmp buf
     if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
         goto done;
     }
 
+    // Errors raised by the parser and the compiler are handled here as well
+    context->e->jmp = &buf;
+
     // Check for cached template, if available
     if( !from_cache ) {
         // Parse
@@ -400,6 +405,14 @@ done:
         handlebars_cache_release(vm->cache, tmpl, module);
     }
     handlebars_string_delref(tmpl);
+    if (failed && prev_jmp) {
+        // Pass the error on, the remainder of the output would be meaningless
+        if (context->e->num) {
+            handlebars_rethrow(CONTEXT, context);
+        } else {
+            handlebars_rethrow(CONTEXT, CONTEXT);
+        }
+    }
     handlebars_context_dtor(context);
     if (retval) {
         return retval;
-- 
2.43.0


From 05a0f6f197dd2fbabe04864272f1b185f88083f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 14/67] fix: iterating over a map that is already being
 iterated aborted the process

---
 src/handlebars_value.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 117e959..a889651 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -840,7 +840,7 @@ static bool handlebars_value_iterator_next_stack(struct handlebars_value_iterato
     return true;
 }
 
-static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
+static bool handlebars_value_iterator_next_map_nested(struct handlebars_value_iterator * it)
 {
     struct handlebars_value * tmp;
 
@@ -850,7 +850,6 @@ static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator
 
     if( it->index >= handlebars_map_count(it->value->v.map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(it->value->v.map, false);
         return false;
     }
 
@@ -860,6 +859,16 @@ static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator
     return true;
 }
 
+static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
+{
+    if( handlebars_value_iterator_next_map_nested(it) ) {
+        return true;
+    }
+
+    handlebars_map_set_is_in_iteration(it->value->v.map, false);
+    return false;
+}
+
 bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struct handlebars_value * value)
 {
     struct handlebars_value * tmp;
@@ -891,8 +900,8 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             handlebars_value_value(it->cur, tmp);
             it->next = &handlebars_value_iterator_next_map;
             if (handlebars_map_set_is_in_iteration(value->v.map, true)) {
-                fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-                abort();
+                // the outer iteration will unlock the map
+                it->next = &handlebars_value_iterator_next_map_nested;
             }
             return true;
 
-- 
2.43.0


From 82c4178d7ce40361a46b5fb77278e9cea734dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 15/67] fix: iterating over loaded partials during an iteration
 aborted the process

---
 src/handlebars_partial_loader.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 1d70338..4219dce 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -140,7 +140,7 @@ static bool hbs_partial_loader_iterator_next_void(struct handlebars_value_iterat
     return false;
 }
 
-static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterator * it)
+static bool hbs_partial_loader_iterator_next_map_nested(struct handlebars_value_iterator * it)
 {
     struct handlebars_partial_loader * intern = GET_INTERN_V(it->value);
     struct handlebars_map * map = intern->map;
@@ -151,7 +151,6 @@ static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterato
 
     if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(map, false);
         return false;
     }
 
@@ -161,6 +160,16 @@ static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterato
     return true;
 }
 
+static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterator * it)
+{
+    if( hbs_partial_loader_iterator_next_map_nested(it) ) {
+        return true;
+    }
+
+    handlebars_map_set_is_in_iteration(GET_INTERN_V(it->value)->map, false);
+    return false;
+}
+
 static bool hbs_partial_loader_iterator_init(struct handlebars_value_iterator * it, struct handlebars_value * value)
 {
     struct handlebars_partial_loader * intern = GET_INTERN_V(value);
@@ -179,8 +188,8 @@ static bool hbs_partial_loader_iterator_init(struct handlebars_value_iterator *
     handlebars_value_value(it->cur, tmp);
     it->next = &hbs_partial_loader_iterator_next_map;
     if (handlebars_map_set_is_in_iteration(map, true)) {
-        fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-        abort();
+        // the outer iteration will unlock the map
+        it->next = &hbs_partial_loader_iterator_next_map_nested;
     }
 
     return true;
-- 
2.43.0


From bb2909745c534c12112c2d0d579367b46b96f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 16/67] fix: different strings could compare equal

---
 src/handlebars_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 47fb999..5139512 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -337,7 +337,7 @@ bool handlebars_string_eq(
     if( string1->len != string2->len ) {
         return false;
     } else {
-        return hbs_str_hash(string1) == hbs_str_hash(string2);
+        return hbs_str_hash(string1) == hbs_str_hash(string2) && 0 == memcmp(string1->val, string2->val, string1->len);
     }
 }
 
@@ -373,7 +373,7 @@ bool hbs_str_eq_strl(
     if (hbs_str_len(string1) != len2) {
         return false;
     }
-    return 0 == strncmp(hbs_str_val(string1), str2, len2);
+    return 0 == memcmp(hbs_str_val(string1), str2, len2);
 }
 
 const char * handlebars_strnstr(const char * haystack, size_t haystack_len, const char * needle, size_t needle_len)
-- 
2.43.0


From 063a758ca4f7452315d0e424d8c9b59d2bcd7458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 17/67] fix: trimming a string kept its old hash

---
 src/handlebars_string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 5139512..a513d7a 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -830,6 +830,7 @@ struct handlebars_string * handlebars_string_ltrim(struct handlebars_string * st
 
     if( ptr > string->val ) {
         memmove(string->val, ptr, string->len + 1);
+        string->hash = 0;
     }
 
     return string;
@@ -859,6 +860,7 @@ struct handlebars_string * handlebars_string_rtrim(struct handlebars_string * st
     while( original > string->val && flags[(unsigned char) *--original] ) {
         --string->len;
         *original = '\0';
+        string->hash = 0;
     }
 
     return string;
-- 
2.43.0


From a552009ceab17d60e5162091898d62096fbf0104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 18/67] fix: editing a shared string changed the other owner's
 copy

---
 src/handlebars_string.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index a513d7a..1c0f41a 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -398,13 +398,14 @@ struct handlebars_string * handlebars_str_reduce(
     const char * search, size_t search_len,
     const char * replacement, size_t replacement_len
 ) {
-    char * tok = string->val;
+    char * tok;
 
     if( replacement_len > search_len || search_len <= 0 || string->len <= 0 ) {
         return string;
     }
 
     string = separate_string(string);
+    tok = string->val;
 
     while( NULL != (tok = (char *) handlebars_strnstr(tok, string->len - (tok - string->val), search, search_len)) ) {
         memmove(tok, replacement, replacement_len);
@@ -513,14 +514,16 @@ struct handlebars_string * handlebars_string_addcslashes(struct handlebars_conte
 
 struct handlebars_string * handlebars_string_stripcslashes(struct handlebars_string * string)
 {
-    char * source = string->val;
-    char * target = string->val;
-    char * end = string->val + string->len;
+    char * source;
+    char * target;
+    char * end;
     size_t nlen = string->len;
     size_t i;
     char numtmp[4];
 
     string = separate_string(string);
+    source = target = string->val;
+    end = string->val + string->len;
 
     for( ; source < end; source++ ) {
         if( *source == '\\' && source + 1 < end ) {
-- 
2.43.0


From 3dd2ae3dc0a799bc5fe2c9b9336ce9a1b3f7b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 19/67] fix: indenting an empty string read before its buffer

---
 src/handlebars_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 1c0f41a..562c9a0 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -776,7 +776,7 @@ struct handlebars_string * handlebars_string_indent_append(
 ) {
     const char * str = input_string->val;
     size_t str_len = input_string->len;
-    bool endsInLine = (str[str_len - 1] == '\n');
+    bool endsInLine = str_len > 0 && str[str_len - 1] == '\n';
     size_t i;
     char tmp[2] = "\0";
 
-- 
2.43.0


From 8e151d4a658e4267eb97696896f1cd21a8432265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 20/67] fix: a reassigned value kept the safe string flag

---
 src/handlebars_value.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index a889651..5424e6a 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -99,6 +99,7 @@ void handlebars_value_dtor(struct handlebars_value * value)
 
     // Initialize to null
     value->type = HANDLEBARS_VALUE_TYPE_NULL;
+    value->flags = 0;
     memset(&value->v, 0, sizeof(value->v));
 
 #ifdef HANDLEBARS_HAVE_VALGRIND
-- 
2.43.0


From 08164d89f23a43c610b67df0e72b8648b330ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 21/67] fix: assigning a value to its own container used freed
 memory

---
 src/handlebars_value.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 5424e6a..7e17958 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -518,31 +518,33 @@ void handlebars_value_closure(struct handlebars_value * value, struct handlebars
 
 void handlebars_value_value(struct handlebars_value * dest, struct handlebars_value * src)
 {
-    handlebars_value_null(dest);
-    *dest = *src;
-    switch( dest->type ) {
+    // src may be owned by dest, so acquire the new value before releasing the old one
+    struct handlebars_value tmp = *src;
+    switch( tmp.type ) {
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            handlebars_stack_addref(dest->v.stack);
+            handlebars_stack_addref(tmp.v.stack);
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
-            handlebars_map_addref(dest->v.map);
+            handlebars_map_addref(tmp.v.map);
             break;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            handlebars_string_addref(dest->v.string);
+            handlebars_string_addref(tmp.v.string);
             break;
         case HANDLEBARS_VALUE_TYPE_USER:
-            handlebars_user_addref(dest->v.user);
+            handlebars_user_addref(tmp.v.user);
             break;
         case HANDLEBARS_VALUE_TYPE_PTR:
-            handlebars_ptr_addref(dest->v.ptr);
+            handlebars_ptr_addref(tmp.v.ptr);
             break;
         case HANDLEBARS_VALUE_TYPE_CLOSURE:
-            handlebars_closure_addref(dest->v.closure);
+            handlebars_closure_addref(tmp.v.closure);
             break;
         default:
             // do nothing
             break;
     }
+    handlebars_value_null(dest);
+    *dest = tmp;
 }
 
 void handlebars_value_set_flag(
-- 
2.43.0


From 185abe42f02adb8e474662cbe909ecc44bf8fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 22/67] fix: the top element of a protected stack segment could
 be popped

---
 src/handlebars_stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 5d062e2..2bc3545 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -222,7 +222,7 @@ struct handlebars_value * handlebars_stack_pop(struct handlebars_stack * stack,
     }
 #endif
 
-    if (stack->i < stack->protect) {
+    if (stack->i <= stack->protect) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Attempting to pop protected stack segment i=%zu protect=%zu", stack->i, stack->protect);
     }
 
-- 
2.43.0


From 20c26f883505eb06f0c267e4f7a4091b11291870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 23/67] fix: compacting a map lost entries

---
 src/handlebars_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index cfaeed1..f07c096 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -551,8 +551,8 @@ void handlebars_map_sparse_array_compact(struct handlebars_map * map)
     // Scan until the first tombstone
     for (; i < map->vec_offset; i++) {
         if (0 == memcmp(&vec[i], &HANDLEBARS_MAP_TOMBSTONE_V, sizeof(HANDLEBARS_MAP_TOMBSTONE_V))) {
+            vec_offset = i;
             i++;
-            vec_offset++;
             break;
         }
     }
-- 
2.43.0


From 43e1cf3a37f6c0409174386abe2bd8002fa8edf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 24/67] fix: a hash table full of removed entries rejected new
 ones

---
 src/handlebars_map.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index f07c096..326eb0f 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -188,13 +188,15 @@ static inline struct ht_find_result map_find_entry(
     for (i = 0; i < table_capacity; i++) {
         pos = (start + i) % table_capacity;
         if (!table[pos]) {
-            ret.empty_found = true;
-            ret.empty_offset = pos;
+            if (!ret.empty_found) {
+                ret.empty_found = true;
+                ret.empty_offset = pos;
+            }
             break;
         } else if (table[pos] == HANDLEBARS_MAP_TOMBSTONE) {
             ret.tombstones++;
             if (!ret.empty_found) {
-                ret.empty_offset = true;
+                ret.empty_found = true;
                 ret.empty_offset = pos;
             }
         } else if( handlebars_string_eq(table[pos]->key, key) ) {
-- 
2.43.0


From e1404824af5174f9993de5f7bcfe98fb93b3bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 25/67] fix: adding to a full map during iteration overflowed
 it

---
 src/handlebars_map.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 326eb0f..1896cb1 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -220,7 +220,11 @@ static inline void map_add_at_table_offset(
     struct handlebars_map_entry ** table = map_table(map);
     struct handlebars_map_entry * entry = &vec[map->vec_offset];
 
-    assert(map->vec_offset < map->vec_capacity);
+    // The map cannot grow while it is being iterated
+    if (map->vec_offset >= map->vec_capacity) {
+        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
+    }
+
     assert(table[offset] == NULL || table[offset] == HANDLEBARS_MAP_TOMBSTONE);
 
 #ifndef HANDLEBARS_NO_REFCOUNT
-- 
2.43.0


From 717740007e91f0a8fe46910ddbd80e36287bcc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 26/67] fix: the map capacity search ran past its table

---
 src/handlebars_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 1896cb1..2c43a27 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -148,7 +148,7 @@ HBS_ATTR_PURE
 static inline size_t ht_choose_table_capacity(size_t elements) {
     size_t target_capacity = elements * 100 / HANDLEBARS_MAP_MAX_LOAD_FACTOR;
     size_t i = 0;
-    for (i = 0; i < sizeof(HANDLEBARS_MAP_CAPACITY_TABLE) - 1; i++) {
+    for (i = 0; i < sizeof(HANDLEBARS_MAP_CAPACITY_TABLE) / sizeof(HANDLEBARS_MAP_CAPACITY_TABLE[0]); i++) {
         if (HANDLEBARS_MAP_CAPACITY_TABLE[i] >= target_capacity) {
             return HANDLEBARS_MAP_CAPACITY_TABLE[i];
         }
-- 
2.43.0


From 1cf56205a894d718829517ddcf5ba76a8a1a4a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 27/67] fix: the mmap cache returned expired templates

---
 src/handlebars_cache_mmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5f5b5ae..45da1c3 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -312,6 +312,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         intern->table_entries--;
         protect(cache, true);
         unlock(cache);
+        module = NULL;
         goto error;
     }
 
-- 
2.43.0


From 31d87496a564e4681f052fd280e5772f6820ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 28/67] fix: expiring and resetting the LMDB cache had no
 effect

---
 src/handlebars_cache_lmdb.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 61c1312..39e7966 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -99,9 +99,15 @@ static int cache_gc(struct handlebars_cache * cache)
     }
 
     mdb_cursor_close(cursor);
-error:
+    if( err != MDB_NOTFOUND ) goto error;
+
+    err = mdb_txn_commit(txn);
     HANDLE_RC(err);
+    return 0;
+
+error:
     mdb_txn_abort(txn);
+    HANDLE_RC(err);
     return 0;
 }
 
@@ -299,7 +305,11 @@ static void cache_reset(struct handlebars_cache * cache)
     err = mdb_drop(txn, dbi, 0);
     if( err != 0 ) goto error;
 
-    error:
+    err = mdb_txn_commit(txn);
+    HANDLE_RC(err);
+    return;
+
+error:
     mdb_txn_abort(txn);
     HANDLE_RC(err);
 }
-- 
2.43.0


From 0a40b80c93ddea1d37e836071334fe43766464b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 29/67] fix: a failed LMDB commit freed its transaction twice

---
 src/handlebars_cache_lmdb.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 39e7966..3e11152 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -247,9 +247,9 @@ static void cache_add(
     handlebars_talloc_free(module_copy);
     if( err != 0 ) goto error;
 
-    // Commit
+    // Commit - the transaction is gone afterwards, even if this fails
     err = mdb_txn_commit(txn);
-    if( err != 0 ) goto error;
+    HANDLE_RC(err);
 
     return;
 
-- 
2.43.0


From 0641575c96503eaa1d2bc35c26f5c32971bba6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 30/67] fix: a truncated LMDB record was read past its end

---
 src/handlebars_cache_lmdb.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 3e11152..c74f092 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -93,6 +93,9 @@ static int cache_gc(struct handlebars_cache * cache)
                 data.mv_data, (int) data.mv_size, (char *) data.mv_data); */
 
         struct handlebars_module * module = (struct handlebars_module *) data.mv_data;
+        if( data.mv_size < sizeof(struct handlebars_module) ) {
+            continue;
+        }
         if( cache->max_age >= 0 && difftime(now, module->ts) > cache->max_age ) {
             mdb_del(txn, dbi, &key, NULL);
         }
@@ -153,6 +156,12 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
 
     module = ((struct handlebars_module *) data.mv_data);
 
+    // Consider a truncated record a miss
+    if( data.mv_size < sizeof(struct handlebars_module) || data.mv_size < module->size || module->size < sizeof(struct handlebars_module) ) {
+        intern->stat.misses++;
+        goto error;
+    }
+
 #if defined(HANDLEBARS_ENABLE_DEBUG)
     // In debug mode, throw
     handlebars_module_verify(module, CONTEXT);
-- 
2.43.0


From d6a493e3b7345a124036b682c9f246ee6f5be81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 31/67] fix: in compat mode templates were cached under another
 template's key

---
 src/handlebars_vm.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 7a6e38d..1ba1943 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -332,8 +332,8 @@ static struct handlebars_string * execute_template(
     struct handlebars_context * context = handlebars_context_ctor_ex(vm);
     HANDLEBARS_MEMCHECK(context, CONTEXT);
     struct handlebars_string * volatile retval = NULL;
-    struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
-    bool const from_cache = module != NULL;
+    struct handlebars_module * volatile module = NULL;
+    bool volatile from_cache = false;
     long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     bool volatile failed = false;
@@ -355,21 +355,28 @@ static struct handlebars_string * execute_template(
     // Errors raised by the parser and the compiler are handled here as well
     context->e->jmp = &buf;
 
+    // Preprocess, before looking at the cache as the result depends on the caller
+    if (vm->flags & handlebars_compiler_flag_compat) {
+        tmpl = handlebars_preprocess_delimiters(
+            HBSCTX(context),
+            tmpl,
+            use_delimiters ? vm->delim_open : NULL,
+            use_delimiters ? vm->delim_close : NULL
+        );
+        if (indent) {
+            tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
+        }
+    }
+
     // Check for cached template, if available
+    if( vm->cache ) {
+        module = handlebars_cache_find(vm->cache, tmpl);
+        from_cache = module != NULL;
+    }
+
     if( !from_cache ) {
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
-        if (vm->flags & handlebars_compiler_flag_compat) {
-            tmpl = handlebars_preprocess_delimiters(
-                HBSCTX(context),
-                tmpl,
-                use_delimiters ? vm->delim_open : NULL,
-                use_delimiters ? vm->delim_close : NULL
-            );
-            if (indent) {
-                tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
-            }
-        }
         struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, vm->flags);
 
         // Compile
-- 
2.43.0


From dbca676355340d9073331c88dec8c480d51b3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 32/67] fix: a cached partial was used although it was compiled
 with other flags

---
 src/handlebars_vm.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 1ba1943..ba87c2e 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -334,6 +334,7 @@ static struct handlebars_string * execute_template(
     struct handlebars_string * volatile retval = NULL;
     struct handlebars_module * volatile module = NULL;
     bool volatile from_cache = false;
+    bool use_cache = vm->cache != NULL;
     long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     bool volatile failed = false;
@@ -374,6 +375,14 @@ static struct handlebars_string * execute_template(
         from_cache = module != NULL;
     }
 
+    // A template compiled with other flags is of no use
+    if( from_cache && ((unsigned long) handlebars_module_get_flags(module) ^ vm->flags) & handlebars_compiler_flag_all ) {
+        handlebars_cache_release(vm->cache, tmpl, module);
+        module = NULL;
+        from_cache = false;
+        use_cache = false;
+    }
+
     if( !from_cache ) {
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
@@ -388,7 +397,7 @@ static struct handlebars_string * execute_template(
         module = handlebars_program_serialize(context, program);
 
         // Save cache entry
-        if( vm->cache ) {
+        if( use_cache ) {
             handlebars_cache_add(vm->cache, tmpl, module);
         }
 
-- 
2.43.0


From 5501edaa8a8a19b63c4c0c31b1ddd7244c069e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 33/67] fix: a JSON null kept the previous element's value
 during iteration

---
 src/handlebars_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 13f4526..21ee5fe 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -285,7 +285,7 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
     switch( json_object_get_type(json) ) {
         case json_type_null:
-            // do nothing
+            handlebars_value_null(value);
             break;
         case json_type_boolean:
             handlebars_value_boolean(value, json_object_get_boolean(json));
-- 
2.43.0


From 08fe7e97c0a5ddcf4b435f5d8ee871c2fc6306b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 34/67] fix: iterating an empty JSON array yielded one element

---
 src/handlebars_json.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 21ee5fe..83d2371 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -239,6 +239,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
         }
 
         case json_type_array:
+            if (json_object_array_length(intern->object) <= 0) {
+                it->next = &hbs_json_iterator_next_void;
+                return false;
+            }
             it->index = 0;
             handlebars_value_init_json_object(intern->user.ctx, it->cur, json_object_array_get_idx(intern->object, (int) it->index));
             it->next = &hbs_json_iterator_next_array;
-- 
2.43.0


From fdde03c67e1dbcefc7f00bd8adec7518f6f16d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:50 +0000
Subject: [PATCH 35/67] fix: do not keep the hash of the original when
 rewriting a string param

The copy kept the cached hash of the string it was copied from while its
slashes were replaced in place.
---
 src/handlebars_compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index d83abad..e696a8c 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -481,7 +481,7 @@ static inline void handlebars_compiler_push_param(
             handlebars_operand_set_boolval(&opcode->op1, string && hbs_str_eq_strl(string, HBS_STRL("true")));
         } else {
             // @todo should be /^(\.\.?\/)/
-            string = handlebars_string_copy_ctor(CONTEXT, string);
+            string = handlebars_string_ctor(CONTEXT, hbs_str_val(string), hbs_str_len(string));
             string = handlebars_string_ltrim(string, HBS_STRL("./"));
             for( char * tmp2 = hbs_str_val(string); *tmp2; tmp2++ ) {
                 if( *tmp2 == '/' ) {
-- 
2.43.0


From aa4f8468bcdcfae3e0612da50ab7c9173840b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:08 +0000
Subject: [PATCH 36/67] fix: reject YAML mapping keys that are not scalars

Only an assertion guarded reading the key as a scalar, so with NDEBUG the
members of a sequence or mapping key were used as a string and its length.
---
 src/handlebars_yaml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 6f9b350..42196ab 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -57,7 +57,9 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             for( pair = node->data.mapping.pairs.start; pair < node->data.mapping.pairs.top; pair++ ) {
                 yaml_node_t * keyNode = yaml_document_get_node(document, pair->key);
                 yaml_node_t * valueNode = yaml_document_get_node(document, pair->value);
-                assert(keyNode->type == YAML_SCALAR_NODE);
+                if( keyNode->type != YAML_SCALAR_NODE ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Error: mapping keys must be scalars");
+                }
                 handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
-- 
2.43.0


From e72936b594cde208f08cfce44fcac9abd860931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:08 +0000
Subject: [PATCH 37/67] fix: an empty YAML scalar became the number zero

strtol() stops at the end of an empty string, too.
---
 src/handlebars_yaml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 42196ab..3cf0051 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -86,13 +86,13 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
                 double dval;
                 // Long
                 lval = strtol((const char *) node->data.scalar.value, &end, 10);
-                if( !*end ) {
+                if( !*end && node->data.scalar.length > 0 ) {
                     handlebars_value_integer(value, lval);
                     goto done;
                 }
                 // Double
                 dval = strtod((const char *) node->data.scalar.value, &end);
-                if( !*end ) {
+                if( !*end && node->data.scalar.length > 0 ) {
                     handlebars_value_float(value, dval);
                     goto done;
                 }
-- 
2.43.0


From 8d1212c6a3749ae38def79ea5587e0d34c0c4d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:38 +0000
Subject: [PATCH 38/67] fix: large indices of a JSON array wrapped around

The index was truncated to int, so element 4294967296 was element 0.
---
 src/handlebars_json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 83d2371..cd81e29 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -156,7 +156,7 @@ static struct handlebars_value * hbs_json_map_find(struct handlebars_value * val
 static struct handlebars_value * hbs_json_array_find(struct handlebars_value * value, size_t index, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_array_get_idx(intern->object, (int) index);
+    struct json_object * item = json_object_array_get_idx(intern->object, index);
     if( item == NULL ) {
         return NULL;
     }
-- 
2.43.0


From 0311c2914258a6808f6a0c8d29d2406d82a3436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:26 +0000
Subject: [PATCH 39/67] fix: a failed compilation left the compiler pointing
 into its dead frame

The stacks live in the frame of handlebars_compiler_compile() but were only
detached on success, so using the compiler again wrote to freed stack memory.
---
 src/handlebars_compiler.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index e696a8c..e9bc856 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1448,13 +1448,15 @@ void handlebars_compiler_compile(
 ) {
     struct handlebars_error * e = HBSCTX(compiler)->e;
     jmp_buf * prev = e->jmp;
+    struct handlebars_block_param_stack * prev_bps = compiler->bps;
+    struct handlebars_source_node_stack * prev_sns = compiler->sns;
+    bool volatile failed = false;
     jmp_buf buf;
 
     // Save jump buffer
-    if( !prev ) {
-        if( handlebars_setjmp_ex(compiler, &buf) ) {
-            goto done;
-        }
+    if( handlebars_setjmp_ex(compiler, &buf) ) {
+        failed = true;
+        goto done;
     }
 
     // Allocate stacks
@@ -1471,10 +1473,15 @@ void handlebars_compiler_compile(
     compiler->program->flags = compiler->flags;
     handlebars_compiler_accept(compiler, node);
 
-    // Reset stacks
-    compiler->bps = NULL;
-    compiler->sns = NULL;
-
 done:
     e->jmp = prev;
+
+    // Reset stacks
+    compiler->bps = prev_bps;
+    compiler->sns = prev_sns;
+
+    // Pass the error on to the caller's error handler, if there is one
+    if( failed && prev ) {
+        handlebars_rethrow(HBSCTX(compiler), HBSCTX(compiler));
+    }
 }
-- 
2.43.0


From 464e5880fc27cf8dbd92dfa0e9782ec6d0c42f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 40/67] fix: the opcode name "return" was not recognised

---
 src/handlebars_opcodes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_opcodes.c b/src/handlebars_opcodes.c
index dc096fc..fad6379 100644
--- a/src/handlebars_opcodes.c
+++ b/src/handlebars_opcodes.c
@@ -248,6 +248,7 @@ enum handlebars_opcode_type handlebars_opcode_reverse_readable_type(const char *
         case 'r':
             _RTYPE_REV_CMP(resolve_possible_lambda, resolvePossibleLambda);
             _RTYPE_REV_CMP(register_decorator, registerDecorator);
+            _RTYPE_REV_CMP(return, return);
             break;
 
         default: assert(0); break; // LCOV_EXCL_LINE
-- 
2.43.0


From 9b9f5ff6b933fe877d848082d9856ec81d1d336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 41/67] fix: printing a deeply nested program overflowed the
 indentation buffer

---
 src/handlebars_opcode_printer.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_opcode_printer.c b/src/handlebars_opcode_printer.c
index 5737bbf..36744d4 100644
--- a/src/handlebars_opcode_printer.c
+++ b/src/handlebars_opcode_printer.c
@@ -53,11 +53,10 @@ static struct handlebars_opcode_printer * handlebars_opcode_printer_ctor(struct
 
 static inline struct handlebars_string * append_indent(struct handlebars_context * context, struct handlebars_string * string, size_t num)
 {
-    num *= 2;
-    char tmp[256];
-    memset(tmp, ' ', num);
-    tmp[num] = 0;
-    return handlebars_string_append(context, string, tmp, num);
+    while (num-- > 0) {
+        string = handlebars_string_append(context, string, HBS_STRL("  "));
+    }
+    return string;
 }
 
 struct handlebars_string * handlebars_operand_print_append(
-- 
2.43.0


From b2a1dfdd17b06c0a34ec639e839f8e88d52567eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:44 +0000
Subject: [PATCH 42/67] fix: a template as long as the longest key of the LMDB
 cache failed to render

The key includes the terminating NUL, so its size is one more than the length.
---
 src/handlebars_cache_lmdb.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index c74f092..39c0c90 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -136,7 +136,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
+    if( hbs_str_len(tmpl) >= (size_t) mdb_env_get_maxkeysize(intern->env) ) {
         snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
         key.mv_size = strlen(tmp);
         key.mv_data = tmp;
@@ -226,7 +226,7 @@ static void cache_add(
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
+    if( hbs_str_len(tmpl) >= (size_t) mdb_env_get_maxkeysize(intern->env) ) {
         snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
         key.mv_size = strlen(tmp);
         key.mv_data = tmp;
-- 
2.43.0


From 8453714abda03db5e334c8b07f6b029df561aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:44 +0000
Subject: [PATCH 43/67] fix: long templates were told apart by a 32 bit hash
 only in the LMDB cache

---
 src/handlebars_cache_lmdb.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 39c0c90..933b2df 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -126,6 +126,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_module * module;
     time_t now;
     size_t size;
+    size_t extra = 0;
 
     time(&now);
 
@@ -140,6 +141,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
         key.mv_size = strlen(tmp);
         key.mv_data = tmp;
+        extra = hbs_str_len(tmpl);
     } else {
         key.mv_size = hbs_str_len(tmpl) + 1;
         key.mv_data = hbs_str_val(tmpl);
@@ -162,6 +164,15 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         goto error;
     }
 
+    // The hash is not enough to tell templates apart, the text follows the module
+    if( extra && (
+            data.mv_size != module->size + extra ||
+            0 != memcmp((char *) data.mv_data + module->size, hbs_str_val(tmpl), extra)
+    ) ) {
+        intern->stat.misses++;
+        goto error;
+    }
+
 #if defined(HANDLEBARS_ENABLE_DEBUG)
     // In debug mode, throw
     handlebars_module_verify(module, CONTEXT);
@@ -218,6 +229,7 @@ static void cache_add(
     MDB_val data;
     char tmp[256];
     struct handlebars_module * module_copy;
+    size_t extra = 0;
 
     err = mdb_txn_begin(intern->env, NULL, 0, &txn);
     HANDLE_RC(err);
@@ -230,13 +242,14 @@ static void cache_add(
         snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
         key.mv_size = strlen(tmp);
         key.mv_data = tmp;
+        extra = hbs_str_len(tmpl);
     } else {
         key.mv_size = hbs_str_len(tmpl) + 1;
         key.mv_data = hbs_str_val(tmpl);
     }
 
     // Normalize pointers
-    module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    module_copy = handlebars_talloc_size(CONTEXT, module->size + extra);
     if( !module_copy ) {
         mdb_txn_abort(txn);
     }
@@ -247,8 +260,13 @@ static void cache_add(
     handlebars_module_normalize_pointers(module_copy, (void *) 0);
     handlebars_module_generate_hash(module_copy);
 
+    // The hash is not enough to tell templates apart, store the text as well
+    if( extra ) {
+        memcpy((char *) module_copy + module->size, hbs_str_val(tmpl), extra);
+    }
+
     // Make data
-    data.mv_size = module_copy->size;
+    data.mv_size = module_copy->size + extra;
     data.mv_data = module_copy;
 
     // Store
-- 
2.43.0


From f51193df429c5c1f06ef1dab60b1c24b1df6c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:44 +0000
Subject: [PATCH 44/67] fix: the mmap cache counted an entry it had no room for

---
 src/handlebars_cache_mmap.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 45da1c3..5c1739a 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -196,14 +196,15 @@ static inline struct table_entry * table_find(struct handlebars_cache_mmap * int
     return intern->table[offset];
 }
 
-static inline void table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
+static inline bool table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
 {
     uint32_t offset = hbs_str_hash(entry->key) % intern->table_count;
-    if( entry == NULL ) {
-        intern->table[offset] = NULL;
-    } else {
-        intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
+    struct table_entry * copy = append(intern, entry, sizeof(struct table_entry));
+    if( copy == NULL ) {
+        return false;
     }
+    intern->table[offset] = copy;
+    return true;
 }
 
 static inline void table_unset(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
@@ -364,23 +365,28 @@ static void cache_add(
 
     // Check for failure
     if( unlikely(!entry.key || !entry.data) ) {
-        protect(cache, true);
-        unlock(cache);
-        cache_reset(cache);
-        return;
+        goto full;
     }
 
     // Pre-patch pointers
     handlebars_module_patch_pointers(entry.data);
 
     // Finish;
-    table_set(intern, &entry);
+    if( unlikely(!table_set(intern, &entry)) ) {
+        goto full;
+    }
     intern->table_entries++;
 
 error:
     // Unlock
     protect(cache, true);
     unlock(cache);
+    return;
+
+full:
+    protect(cache, true);
+    unlock(cache);
+    cache_reset(cache);
 }
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
-- 
2.43.0


From a1d7f992f46d919ebebc2c98c0adef3aa154b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:44 +0000
Subject: [PATCH 45/67] fix: the simple cache kept keys that were freed with
 their context

---
 src/handlebars_cache_simple.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 838d1c9..59bdc6c 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -160,6 +160,9 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
     struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_module, module, false);
     handlebars_value_ptr(value, uptr);
 
+    // The key has to outlive the context of the caller
+    tmpl = handlebars_string_copy_ctor(HBSCTX(cache), tmpl);
+
     intern->map = handlebars_map_add(intern->map, tmpl, value);
 
     // Update master
-- 
2.43.0


From 47cb4ff6ff81eb9df343b3fe0f330e26b13732e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:04 +0000
Subject: [PATCH 46/67] fix: the simple cache freed templates that were being
 executed

Garbage collection, triggered by adding a partial, may free the templates
including it.
---
 src/handlebars_cache_simple.c | 12 +++++++++++-
 src/handlebars_vm.c           |  3 ++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 59bdc6c..2e21eb6 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -41,6 +41,8 @@
 struct handlebars_cache_simple {
     struct handlebars_map * map;
     struct handlebars_cache_stat stat;
+    //! The number of modules that were found and not released yet
+    size_t refcount;
 };
 
 static inline bool should_gc(struct handlebars_cache * cache)
@@ -90,6 +92,11 @@ static int cache_gc(struct handlebars_cache * cache)
     time_t now;
     time(&now);
 
+    // Do not free modules that are being executed
+    if( intern->refcount > 0 ) {
+        return 0;
+    }
+
     size_t remove_keys_i = 0;
     struct handlebars_string ** remove_keys = handlebars_talloc_array(HBSCTX(cache), struct handlebars_string *, handlebars_map_count(map) + 1);
     HANDLEBARS_MEMCHECK(remove_keys, HBSCTX(cache));
@@ -137,6 +144,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         assert(talloc_get_type_abort(module, struct handlebars_module) != NULL);
         time(&module->ts);
         intern->stat.hits++;
+        intern->refcount++;
     } else {
         intern->stat.misses++;
     }
@@ -174,7 +182,8 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
 {
-    ;
+    struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
+    intern->refcount--;
 }
 
 static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
@@ -182,6 +191,7 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
     struct handlebars_cache_stat stat = intern->stat;
     stat.name = "simple";
+    stat.refcount = intern->refcount;
     stat.total_size = talloc_total_size(cache); // meh
     return stat;
 }
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index ba87c2e..2568b01 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -398,7 +398,8 @@ static struct handlebars_string * execute_template(
 
         // Save cache entry
         if( use_cache ) {
-            handlebars_cache_add(vm->cache, tmpl, module);
+            // The cache gets its own, as it may free it while this one is being executed
+            handlebars_cache_add(vm->cache, tmpl, handlebars_program_serialize(context, program));
         }
 
         // Cleanup parser
-- 
2.43.0


From 0ad4355c9374360c09a094cc5cfc4a7432fdf675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 47/67] fix: an expired entry of the mmap cache could be
 removed twice

---
 src/handlebars_cache_mmap.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5c1739a..b6e2e08 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -308,9 +308,12 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
         lock(cache);
         protect(cache, false);
-        table_unset(intern, key);
         intern->misses++;
-        intern->table_entries--;
+        // Another process may have removed it in the meantime
+        if( table_find(intern, key) == entry ) {
+            table_unset(intern, key);
+            intern->table_entries--;
+        }
         protect(cache, true);
         unlock(cache);
         module = NULL;
-- 
2.43.0


From cd5e68bc0ca23a96228aa11e0d10c9c5ce4cb274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:44 +0000
Subject: [PATCH 48/67] fix: a reset of the mmap cache could recycle an entry
 while it was looked up

The entry was referenced only after it had been read, and of two concurrent
resets the first to finish let readers in again.
---
 src/handlebars_cache_mmap.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index b6e2e08..779cffe 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -60,9 +60,11 @@
 #endif
 
 #ifdef HAVE_ATOMIC_BUILTINS
+#define LOAD(var) __atomic_load_n(&var, __ATOMIC_SEQ_CST)
 #define INCR(var) __atomic_add_fetch(&var, 1, __ATOMIC_SEQ_CST)
 #define DECR(var) __atomic_sub_fetch(&var, 1, __ATOMIC_SEQ_CST)
 #else
+#define LOAD(var) var
 #define INCR(var) lock(cache); var++; unlock(cache)
 #define DECR(var) lock(cache); var--; unlock(cache)
 #endif
@@ -113,7 +115,8 @@ struct handlebars_cache_mmap {
 
     size_t collisions;
 
-    bool in_reset;
+    //! The number of resets in progress
+    long in_reset;
 
 #ifdef USE_SPINLOCK
     pthread_spinlock_t write_lock;
@@ -230,7 +233,7 @@ static void cache_reset(struct handlebars_cache * cache)
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
 
     // Lock
-    intern->in_reset = true;
+    INCR(intern->in_reset);
 
     // Try to wait for refcount to empty
 #ifdef HAVE_ATOMIC_BUILTINS
@@ -264,7 +267,7 @@ static void cache_reset(struct handlebars_cache * cache)
 
 error:
     // Unlock
-    intern->in_reset = false;
+    DECR(intern->in_reset);
 }
 
 static int cache_gc(struct handlebars_cache * cache)
@@ -276,12 +279,15 @@ static int cache_gc(struct handlebars_cache * cache)
 static struct handlebars_module * cache_find(struct handlebars_cache * cache, struct handlebars_string * key)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
-    struct handlebars_module * module = NULL;
+    struct handlebars_module * module;
     time_t now;
 
+    // Keep the entry from being recycled by a reset, before looking at anything
+    INCR(intern->refcount);
+
     // Currently resetting
-    if( intern->in_reset ) {
-        return NULL;
+    if( LOAD(intern->in_reset) ) {
+        goto error;
     }
 
     // Find entry
@@ -316,20 +322,21 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         }
         protect(cache, true);
         unlock(cache);
-        module = NULL;
         goto error;
     }
 
     // Check for pointer mismatch
     if( unlikely((void *) module != module->addr) ) {
+        DECR(intern->refcount);
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, module->addr);
     }
 
     INCR(intern->hits);
-    INCR(intern->refcount);
+    return module;
 
 error:
-    return module;
+    DECR(intern->refcount);
+    return NULL;
 }
 
 static void cache_add(
@@ -341,7 +348,7 @@ static void cache_add(
     struct table_entry entry;
 
     // Currently resetting
-    if( intern->in_reset ) {
+    if( LOAD(intern->in_reset) ) {
         return;
     }
 
-- 
2.43.0


From db72ad9e4ea9da4dccb11cbb9e9c0aa68f06b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:05 +0000
Subject: [PATCH 49/67] fix: failing to create the LMDB environment went
 unnoticed

---
 src/handlebars_cache_lmdb.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 933b2df..2ca286b 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -368,10 +368,11 @@ struct handlebars_cache * handlebars_cache_lmdb_ctor(
     struct handlebars_cache_lmdb * intern = (void *) ((char *) cache + sizeof(struct handlebars_cache));
     cache->internal = intern;
 
-    mdb_env_create(&intern->env);
+    int err = mdb_env_create(&intern->env);
+    HANDLE_RC(err);
     talloc_set_destructor(cache, cache_dtor);
 
-    int err = mdb_env_open(intern->env, path, MDB_WRITEMAP | MDB_MAPASYNC | MDB_NOSUBDIR, 0644);
+    err = mdb_env_open(intern->env, path, MDB_WRITEMAP | MDB_MAPASYNC | MDB_NOSUBDIR, 0644);
     HANDLE_RC(err);
 
     return cache;
-- 
2.43.0


From 30e0a0ce887eead4c528be6cffd5cc3b8cd5f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:26 +0000
Subject: [PATCH 50/67] fix: a string whose hash is zero was written to on
 every use

---
 src/handlebars_string.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 562c9a0..8c1f799 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -88,10 +88,15 @@ size_t hbs_str_len(struct handlebars_string * str) {
 }
 
 uint32_t hbs_str_hash(struct handlebars_string * str) {
-    if (str->hash == 0) {
-        str->hash = handlebars_string_hash(str->val, str->len);
+    uint32_t hash = str->hash;
+    if (hash == 0) {
+        hash = handlebars_string_hash(str->val, str->len);
+        // The hash itself may be zero, in which case there is nothing to store: the string might be read-only
+        if (hash != 0) {
+            str->hash = hash;
+        }
     }
-    return str->hash;
+    return hash;
 }
 
 // }}} Accessors
-- 
2.43.0


From 8717e82f578018e8ebe7714c69de5df2aaf01f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:36 +0000
Subject: [PATCH 51/67] fix: the lock of the mmap cache was kept when changing
 its protection failed

---
 src/handlebars_cache_mmap.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 779cffe..0044e1b 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -151,16 +151,6 @@ static inline void * append(struct handlebars_cache_mmap * intern, void * source
     return addr;
 }
 
-static inline void protect(struct handlebars_cache * cache, bool on)
-{
-    struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
-    int prot = on ? PROT_READ : PROT_READ | PROT_WRITE;
-    int rc = mprotect(intern->table, intern->table_size + intern->data_size, prot);
-    if( rc != 0 ) {
-        handlebars_throw(HBSCTX(cache), HANDLEBARS_ERROR, "mprotect error: %s (%d)", strerror(rc), rc);
-    }
-}
-
 static inline void lock(struct handlebars_cache * cache)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
@@ -193,6 +183,18 @@ static inline void unlock(struct handlebars_cache * cache)
     }
 }
 
+static inline void protect(struct handlebars_cache * cache, bool on)
+{
+    struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
+    int prot = on ? PROT_READ : PROT_READ | PROT_WRITE;
+    int rc = mprotect(intern->table, intern->table_size + intern->data_size, prot);
+    if( rc != 0 ) {
+        rc = errno;
+        unlock(cache); // protection is only ever changed with the lock held
+        handlebars_throw(HBSCTX(cache), HANDLEBARS_ERROR, "mprotect error: %s (%d)", strerror(rc), rc);
+    }
+}
+
 static inline struct table_entry * table_find(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
 {
     uint32_t offset = hbs_str_hash(string) % intern->table_count;
@@ -500,7 +502,9 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
     }
 
     cache_reset(cache);
+    lock(cache);
     protect(cache, true);
+    unlock(cache);
 
     return cache;
 }
-- 
2.43.0


From c752cb321777a899be6eca28e1a7b3758ea5d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:36 +0000
Subject: [PATCH 52/67] fix: misses of the mmap cache could be lost count of

---
 src/handlebars_cache_mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 0044e1b..633644e 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -316,7 +316,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
         lock(cache);
         protect(cache, false);
-        intern->misses++;
+        INCR(intern->misses);
         // Another process may have removed it in the meantime
         if( table_find(intern, key) == entry ) {
             table_unset(intern, key);
-- 
2.43.0


From 94a9c1703b9e3fb981098e66dcace2617ce3fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:37 +0000
Subject: [PATCH 53/67] fix: an entry of the mmap cache was read after it was
 released

---
 src/handlebars_cache_mmap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 633644e..fc8eff8 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -329,8 +329,9 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
 
     // Check for pointer mismatch
     if( unlikely((void *) module != module->addr) ) {
+        void * addr = module->addr;
         DECR(intern->refcount);
-        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, module->addr);
+        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, addr);
     }
 
     INCR(intern->hits);
-- 
2.43.0


From c084c3620d6e1cef506ba210cf88fa3950335497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:13 +0000
Subject: [PATCH 54/67] fix: a template with very many blocks overflowed the
 stack when it was serialized

---
 src/handlebars_opcode_serializer.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index f10367b..3001f18 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -22,10 +22,6 @@
 #include <assert.h>
 #include <string.h>
 
-#ifdef HAVE_ALLOCA_H
-#include <alloca.h>
-#endif
-
 #define HANDLEBARS_COMPILER_PRIVATE
 #define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
 #define HANDLEBARS_OPCODES_PRIVATE
@@ -199,11 +195,11 @@ static struct handlebars_module_table_entry * serialize_program_shallow(struct h
     return entry;
 }
 
-static void serialize_program2(struct handlebars_module * module, struct handlebars_program * program, struct handlebars_module_table_entry * entry)
+static void serialize_program2(struct handlebars_context * context, struct handlebars_module * module, struct handlebars_program * program, struct handlebars_module_table_entry * entry)
 {
     size_t i;
-    //struct handlebars_module_table_entry * children[program->children_length];
-    struct handlebars_module_table_entry ** children = alloca(sizeof(struct handlebars_module_table_entry *) * program->children_length);
+    struct handlebars_module_table_entry ** children = handlebars_talloc_array(context, struct handlebars_module_table_entry *, program->children_length);
+    HANDLEBARS_MEMCHECK(children, context);
 
     // Serialize children (shallow)
     for( i = 0; i < program->children_length; i++ ) {
@@ -225,14 +221,16 @@ static void serialize_program2(struct handlebars_module * module, struct handleb
 
     // Serialize children
     for( i = 0; i < program->children_length; i++ ) {
-        serialize_program2(module, program->children[i], children[i]);
+        serialize_program2(context, module, program->children[i], children[i]);
     }
+
+    handlebars_talloc_free(children);
 }
 
-static void serialize_program(struct handlebars_module * module, struct handlebars_program * program)
+static void serialize_program(struct handlebars_context * context, struct handlebars_module * module, struct handlebars_program * program)
 {
     struct handlebars_module_table_entry * entry = serialize_program_shallow(module, program);
-    serialize_program2(module, program, entry);
+    serialize_program2(context, module, program, entry);
 }
 
 struct handlebars_module * handlebars_program_serialize(
@@ -273,7 +271,7 @@ struct handlebars_module * handlebars_program_serialize(
     module->data_offset = offset;
 
     // Copy data
-    serialize_program(module, program);
+    serialize_program(context, module, program);
 
 #ifndef NDEBUG
     assert(module->program_count == program_count);
-- 
2.43.0


From ad60d1292376fa0c54e1d2a12a532d281876604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:56 +0000
Subject: [PATCH 55/67] fix: a path that leads nowhere yields nothing, not the
 object the missing key was looked up in

---
 src/handlebars_vm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 2568b01..65177e2 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -969,6 +969,8 @@ ACCEPT_FUNCTION(lookup_block_param)
             if( tmp2 ) {
                 tmp = tmp2;
             } else {
+                // Not found: the result is nothing, not the object it was looked up in
+                tmp = NULL;
                 break;
             }
         }
@@ -1038,6 +1040,10 @@ ACCEPT_FUNCTION(lookup_data)
             handlebars_value_value(val, tmp);
         } else if( is_strict || require_terminal ) {
             goto done_and_err;
+        } else {
+            // Not found: the result is nothing, not the object it was looked up in
+            handlebars_value_null(val);
+            break;
         }
     }
 
-- 
2.43.0


From 83b83b80d0a35045b188e8201fb051e2b95f218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:39 +0000
Subject: [PATCH 56/67] fix: a data path that goes up more levels than there
 are yields nothing, not the outermost level

---
 src/handlebars_vm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 65177e2..375646b 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1017,6 +1017,10 @@ ACCEPT_FUNCTION(lookup_data)
             tmp = handlebars_value_map_str_find(data, HBS_STRL("_parent"), rv);
             if (tmp != NULL) {
                 handlebars_value_value(data, tmp);
+            } else {
+                // There are not as many levels
+                handlebars_value_null(data);
+                break;
             }
         }
     }
-- 
2.43.0


From b56ab29f08400ae1cf5fff545b26c9a95bf302b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:57 +0000
Subject: [PATCH 57/67] fix: @root inside a block is the outermost context, not
 the current one

---
 src/handlebars_vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 375646b..56d181d 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1027,8 +1027,8 @@ ACCEPT_FUNCTION(lookup_data)
 
     if( data && (tmp = handlebars_value_map_find(data, first->string, rv)) ) {
         handlebars_value_value(val, tmp);
-    } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
-        handlebars_value_value(val, TOP(vm->contextStack));
+    } else if (hbs_str_eq_strl(first->string, HBS_STRL("root")) && (tmp = handlebars_stack_get(vm->contextStack, 0))) {
+        handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
-- 
2.43.0


From 759eac08d77ae7cf071ac21f64d3bbb4bdb92c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:57 +0000
Subject: [PATCH 58/67] fix: #each gives each level of data its parent, so that
 @../ finds it

---
 src/handlebars_helpers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 658059c..7ba3437 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -102,10 +102,11 @@ struct handlebars_value * handlebars_builtin_each(HANDLEBARS_HELPER_ARGS)
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
 
         if( handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 4);
+            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 5);
             HANDLEBARS_VALUE_FOREACH_KV(options->data, options_key, child) {
                 data_map = handlebars_map_update(data_map, options_key, child);
             } HANDLEBARS_VALUE_FOREACH_END();
+            data_map = handlebars_map_str_update(data_map, HBS_STRL("_parent"), options->data);
         } else {
             data_map = handlebars_map_ctor(CONTEXT, 4);
         }
-- 
2.43.0


From 3702a5e4f8d33209696a58c6924ace971af35f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:40 +0000
Subject: [PATCH 59/67] fix: a path segment is an array index only if all of it
 is a number

---
 src/handlebars_vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 56d181d..e06ab71 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1104,7 +1104,8 @@ ACCEPT_FUNCTION(lookup_on_context)
         if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
             value = handlebars_value_map_find(value, arr->string, rv2);
         } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-            if (sscanf(hbs_str_val(arr->string), "%ld", &index)) {
+            int index_len = 0;
+            if (sscanf(hbs_str_val(arr->string), "%ld%n", &index, &index_len) == 1 && (size_t) index_len == hbs_str_len(arr->string)) {
                 value = handlebars_value_array_find(value, index, rv2);
             } else {
                 value = NULL;
-- 
2.43.0


From 80065bb532278d9f548bddaf42759c2fe2880588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:12 +0000
Subject: [PATCH 60/67] fix: handlebarsc reads directories and pipes out of
 bounds

The size of a file was taken from ftell, which fails for pipes and gives the largest long for directories.
---
 bin/handlebarsc.c | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 26c5b92..05ae755 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -284,24 +284,38 @@ start:
     goto start;
 }
 
-static char * read_stdin(void)
+static char * read_stream(FILE * in, const char * name)
 {
     char buffer[__BUFF_SIZE];
-    FILE * in = stdin;
-    char * buf = talloc_strdup(root, "");
+    char * buf = NULL;
+    size_t size = 0;
+    size_t num;
 
-    // Read
-    while( fgets(buffer, __BUFF_SIZE, in) != NULL ) {
-        buf = talloc_strdup_append_buffer(buf, buffer);
+    // Read everything, however much there is: what is read need not be seekable
+    do {
+        num = fread(buffer, sizeof(char), sizeof(buffer), in);
+        buf = talloc_realloc_size(root, buf, size + num + 1);
+        if( !buf ) {
+            fprintf(stderr, "Failed to read file: %s: Out of memory\n", name);
+            exit(1);
+        }
+        memcpy(buf + size, buffer, num);
+        size += num;
+    } while( num == sizeof(buffer) );
+
+    if( ferror(in) ) {
+        fprintf(stderr, "Failed to read file: %s\n", name);
+        exit(1);
     }
 
+    buf[size] = 0;
+
     return buf;
 }
 
 static char * file_get_contents(char * filename)
 {
     FILE * f;
-    long size;
     char * buf;
 
     // No input file?
@@ -309,7 +323,7 @@ static char * file_get_contents(char * filename)
         fprintf(stderr, "No input file!\n");
         exit(1);
     } else if( strcmp(filename, "-") == 0 ) {
-        return read_stdin();
+        return read_stream(stdin, "stdin");
     }
 
     f = fopen(filename, "rb");
@@ -318,17 +332,10 @@ static char * file_get_contents(char * filename)
         exit(1);
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    buf = talloc_array(root, char, size + 1);
-    size_t read = fread(buf, size, 1, f);
+    buf = read_stream(f, filename);
     fclose(f);
 
-    buf[size] = 0;
-
-    if (!read) {
+    if( talloc_array_length(buf) <= 1 ) {
         fprintf(stderr, "Failed to read file: %s\n", filename);
         exit(1);
     }
-- 
2.43.0


From 5ae21bb72fdff7788fa68876b2ce289185c9c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:27 +0000
Subject: [PATCH 61/67] fix: handlebarsc cuts templates off at a NUL byte

---
 bin/handlebarsc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 05ae755..7c7d31e 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -472,7 +472,7 @@ static int do_lex(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -515,7 +515,7 @@ static int do_parse(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -561,7 +561,7 @@ static int do_compile(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -610,7 +610,7 @@ static int do_module(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -675,7 +675,7 @@ static int do_execute(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
-- 
2.43.0


From 4727e65674f173cc3662181bb572a38f37e07be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:53 +0000
Subject: [PATCH 62/67] fix: handlebarsc ignores options it does not know

---
 bin/handlebarsc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 7c7d31e..cd43d8b 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -278,7 +278,9 @@ start:
             pretty_print = true;
             break;
 
-        default: assert(0); break; // LCOV_EXCL_LINE
+        default:
+            // getopt_long has already printed what is wrong
+            exit(1);
     }
 
     goto start;
-- 
2.43.0


From 2f1275de06156b173277a8d9160148972a730c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:58 +0000
Subject: [PATCH 63/67] fix: handlebarsc exits with success when its output
 could not be written

---
 bin/handlebarsc.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index cd43d8b..34ee0f5 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -757,6 +757,16 @@ static int do_execute(void)
     return 0;
 }
 
+static int finish(int status)
+{
+    // Output is buffered, what could not be written may only turn up here
+    if( fflush(stdout) != 0 || ferror(stdout) ) {
+        fprintf(stderr, "Failed to write output\n");
+        return 1;
+    }
+    return status;
+}
+
 int main(int argc, char * argv[])
 {
 #ifdef HANDLEBARS_HAVE_VALGRIND
@@ -788,14 +798,14 @@ int main(int argc, char * argv[])
     }
 
     switch( mode ) {
-        case handlebarsc_mode_version: return do_version();
-        case handlebarsc_mode_lex: return do_lex();
-        case handlebarsc_mode_parse: return do_parse();
-        case handlebarsc_mode_compile: return do_compile();
-        case handlebarsc_mode_module: return do_module();
-        case handlebarsc_mode_execute: return do_execute();
-        case handlebarsc_mode_debuginfo: return do_debuginfo();
-        case handlebarsc_mode_usage: return do_usage();
+        case handlebarsc_mode_version: return finish(do_version());
+        case handlebarsc_mode_lex: return finish(do_lex());
+        case handlebarsc_mode_parse: return finish(do_parse());
+        case handlebarsc_mode_compile: return finish(do_compile());
+        case handlebarsc_mode_module: return finish(do_module());
+        case handlebarsc_mode_execute: return finish(do_execute());
+        case handlebarsc_mode_debuginfo: return finish(do_debuginfo());
+        case handlebarsc_mode_usage: return finish(do_usage());
 
         // LCOV_EXCL_START
         default:
-- 
2.43.0


From 1f30c3f5d6f4594619277a904005c723255b9c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:29 +0000
Subject: [PATCH 64/67] fix: handlebarsc ignores numbers it cannot read

---
 bin/handlebarsc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 34ee0f5..58cee47 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -259,7 +259,10 @@ start:
 
         // misc
         case handlebarsc_flag_run_count:
-            sscanf(optarg, "%ld", &run_count);
+            if( sscanf(optarg, "%ld", &run_count) != 1 ) {
+                fprintf(stderr, "Invalid run count: %s\n", optarg);
+                exit(1);
+            }
             break;
 
         case handlebarsc_flag_no_convert_input:
@@ -271,7 +274,10 @@ start:
             break;
 
         case handlebarsc_flag_pool_size:
-            sscanf(optarg, "%zu", &pool_size);
+            if( sscanf(optarg, "%zu", &pool_size) != 1 ) {
+                fprintf(stderr, "Invalid pool size: %s\n", optarg);
+                exit(1);
+            }
             break;
 
         case handlebarsc_flag_pretty_print:
-- 
2.43.0


From 10ed422978c58b92041f8b8c4110f0d8830289c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:29 +0000
Subject: [PATCH 65/67] fix: partial loader overruns its buffer on files
 without a size

Directories report the largest long and pipes a negative size; the buffer was made of that size plus one, cut off to an unsigned.
---
 src/handlebars_partial_loader.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 4219dce..480dd85 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -105,9 +106,11 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "File to open partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    // Not everything that can be opened has a size, e.g. pipes and directories
+    if (fseek(f, 0, SEEK_END) != 0 || (size = ftell(f)) < 0 || size >= INT_MAX || fseek(f, 0, SEEK_SET) != 0) {
+        fclose(f);
+        handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "Failed to read partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
+    }
 
     char * buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
     if( !buf ) {
-- 
2.43.0


From d69a579f1bd80b59375249815317da70bd0f443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:55 +0000
Subject: [PATCH 66/67] fix: a dash-only comment makes string truncation move
 memory out of bounds

---
 src/handlebars_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 8c1f799..b4dca43 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -359,6 +359,9 @@ struct handlebars_string * handlebars_string_truncate(
     }
 
     // Truncate left
+    if (start > string->len) {
+        start = string->len;
+    }
     if (start > 0) {
         memmove(string->val, string->val + start, string->len - start);
         string->len -= start;
-- 
2.43.0


From a3731349e7856974dfcbbe84c010b07b33002462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:55 +0000
Subject: [PATCH 67/67] fix: string sizes of 4 GiB and more are cut off before
 allocation

---
 src/handlebars_memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_memory.h b/src/handlebars_memory.h
index 2604136..f37d591 100644
--- a/src/handlebars_memory.h
+++ b/src/handlebars_memory.h
@@ -23,6 +23,7 @@
 #ifndef HANDLEBARS_MEMORY_H
 #define HANDLEBARS_MEMORY_H
 
+#include <limits.h>
 #include <talloc.h>
 #include "handlebars.h"
 
@@ -71,8 +72,9 @@ HBS_EXTERN_C_START
 #define handlebars_talloc_realloc(ctx, p, type, count) \
     (type *) _handlebars_talloc_realloc_array(ctx, p, sizeof(type), count, #type)
 
+// talloc counts in unsigned: a size that does not fit must fail rather than be cut off
 #define handlebars_talloc_realloc_size(ctx, p, s) \
-    _handlebars_talloc_realloc_array(ctx, p, 1, s, __location__)
+    _handlebars_talloc_realloc_array(ctx, p, 1, (s) > UINT_MAX ? UINT_MAX : (unsigned) (s), __location__)
 
 #define handlebars_talloc_size(ctx, size) \
     handlebars_talloc_named_const(ctx, size, __location__)
-- 
2.43.0

