From 33f980044467506b96c56e5e8ee434085aa15b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 01/81] fix: -d accepts decimal values of three or more digits

---
 CMakePasm/source/parseargs.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index f18b837..966c519 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -311,16 +311,13 @@ int parse_arguments(const int argc, char* argv[])
             {
                 sym_val = (int)strtol(val + 1, NULL, 2);
             }
-            else if (strlen(val) > 2)
+            else if (strlen(val) > 2 && val[0] == '0' && val[1] == 'x')
             {
-                if (val[0] == '0' && val[1] == 'x')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 16);
-                }
-                else if (val[0] == '0' && val[1] == 'b')
-                {
-                    sym_val = (int)strtol(val + 2, NULL, 2);
-                }
+                sym_val = (int)strtol(val + 2, NULL, 16);
+            }
+            else if (strlen(val) > 2 && val[0] == '0' && val[1] == 'b')
+            {
+                sym_val = (int)strtol(val + 2, NULL, 2);
             }
             else
             {
-- 
2.43.0


From 81281694589a519bd289d50afab70c5f25359cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 02/81] fix: report failure when the final pass finds errors

---
 CMakePasm/source/pass.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4dbbc92..4f8eaf3 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -257,6 +257,13 @@ int assemble(void)
         fprintf(console, "\n%d bytes written to %s\n\n", total_bytes_written, output_file_name);
     }
 
+    // errors that are only detected when the output is generated
+    if (error_count > 0)
+    {
+        fprintf(console_error, "%d error(s)\n", error_count);
+        return -1;
+    }
+
     // generate symbol line_content
     if (sym_file_name != nullptr)
     {
-- 
2.43.0


From 3d3c60365845d9c81f04c8d02615e505f1708ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 03/81] fix: branch displacements range from -128 to +127

---
 CMakePasm/source/expand.cc    | 2 +-
 CMakePasm/source/genoutput.cc | 2 +-
 CMakePasm/source/node.cc      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7e8b5f0..b99691a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -919,7 +919,7 @@ int expand_op_code_node(const parse_node_ptr p)
                 // make sure a branch is in range
                 const int op = op_value - (p->opcode.program_counter + 2);
 
-                if (op > 128 || op < -127)
+                if (op > 127 || op < -128)
                 {
                     // reverse the logic and insert a jmp
                     switch (p->opcode.instruction)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 2fabd7d..b921c1f 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -224,7 +224,7 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
             // make sure a branch is in range
             op -= (p->opcode.program_counter + 2);
 
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 error(error_value_out_of_range);
                 return 0;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 64ed315..8e68a3a 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1751,7 +1751,7 @@ int generate_list_node(const parse_node_ptr p)
         if (p->opcode.mode == r)
         {
             op -= (p->opcode.program_counter + 2);
-            if (op > 128 || op < -127)
+            if (op > 127 || op < -128)
             {
                 // This error is reported in generate_output
                 fprintf(console, "%s\n", current_buffer);
-- 
2.43.0


From ee3729657fde1ef67c83f48afafb427f9a67c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:09 +0000
Subject: [PATCH 04/81] fix: reverse bvc and bvs when a branch out of range
 becomes a jmp

---
 CMakePasm/source/expand.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index b99691a..d8289a9 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -950,6 +950,14 @@ int expand_op_code_node(const parse_node_ptr p)
                     case _bpl:
                         p->opcode.instruction = _bmi;
                         break;
+
+                    case _bvc:
+                        p->opcode.instruction = _bvs;
+                        break;
+
+                    case _bvs:
+                        p->opcode.instruction = _bvc;
+                        break;
                     }
                     code2 = get_op_code(p->opcode.instruction, r);
                     if (code2 != -1)
-- 
2.43.0


From 07956b0085d0af6baecf4ef00d82496ab9d6f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:29 +0000
Subject: [PATCH 05/81] fix: expanding an out of range branch again keeps its
 condition and target

---
 CMakePasm/source/expand.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index d8289a9..53faebf 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -802,6 +802,7 @@ int expand_op_code_node(const parse_node_ptr p)
     int mode_check = p->opcode.mode;
     const int save_mode = p->opcode.mode;
     const int save_op_code = p->opcode.opcode;
+    const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
     if (program_counter_assigned > 0)
@@ -977,6 +978,9 @@ int expand_op_code_node(const parse_node_ptr p)
                             p->op[index] = constant_node(program_counter + 5, 0);
                             generate_list_node(p);
                             generate_output(output_file, p);
+
+                            // the node may be expanded again in a loop or macro
+                            p->op[index] = target;
                         }
                         program_counter += get_op_code_byte_count(p) + 1;
                         if (final_pass)
@@ -988,6 +992,7 @@ int expand_op_code_node(const parse_node_ptr p)
                             warn(error_branch_out_of_range);
                         }
                         program_counter += get_op_code_byte_count(jmp) + 1;
+                        p->opcode.instruction = save_instruction;
                         p->opcode.opcode = save_op_code;
                         p->opcode.mode = save_mode;
 
-- 
2.43.0


From baffa47685fafded55ae769fc04fa9a289713da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 06/81] fix: bra out of range becomes a jmp instead of
 branching over it

---
 CMakePasm/source/expand.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 53faebf..b8d7dd3 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -973,16 +973,20 @@ int expand_op_code_node(const parse_node_ptr p)
                         }
 
                         p->opcode.opcode = code2;
-                        if (final_pass)
+                        // bra is always taken, the jmp alone replaces it
+                        if (p->opcode.instruction != _bra)
                         {
-                            p->op[index] = constant_node(program_counter + 5, 0);
-                            generate_list_node(p);
-                            generate_output(output_file, p);
-
-                            // the node may be expanded again in a loop or macro
-                            p->op[index] = target;
+                            if (final_pass)
+                            {
+                                p->op[index] = constant_node(program_counter + 5, 0);
+                                generate_list_node(p);
+                                generate_output(output_file, p);
+
+                                // the node may be expanded again in a loop or macro
+                                p->op[index] = target;
+                            }
+                            program_counter += get_op_code_byte_count(p) + 1;
                         }
-                        program_counter += get_op_code_byte_count(p) + 1;
                         if (final_pass)
                         {
                             jmp->opcode.program_counter = program_counter;
-- 
2.43.0


From 2ee16229505326ad549c8aac27c9260e4f40fce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 07/81] fix: register loop up to 255 runs the body for 255

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index b8d7dd3..16b18fa 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -636,7 +636,8 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     expand_node(loop_next);
 
     // check to see if we need a compare
-    if (end != 0)
+    // counting up to 255 ends when the register wraps to zero
+    if (end != 0 && !(increment_flag > 0 && end == 255))
     {
         parse_node_ptr cmp_node;
         if (increment_flag > 0 && end < 255)
-- 
2.43.0


From c494932b23a5345179d5322ccf7cceacd60d7160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:15 +0000
Subject: [PATCH 08/81] fix: -nowarn and .warn off suppress warnings

---
 CMakePasm/source/error.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 86806d9..5e766c9 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -86,6 +86,8 @@ void error(const int err_num)
 void warn(const int err_num)
 {
     assert(err_num > error_start && err_num < error_max);
+    if (ignore_warnings)
+        return;
     yymessage(errors[err_num]);
     warning_count++;
 }
-- 
2.43.0


From 63de1e8934f99c8fd096d5c8a409b80c38fecca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:33 +0000
Subject: [PATCH 09/81] fix: .endif of a skipped .ifdef inside another
 conditional ends the skipping

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 2791320..9efbb56 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -207,8 +207,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 <IF_DEF>".ENDIF"            {
                                 P_TOK("ENDIF")
                                 SV_TOK
-                                ifdef_stack->pop(ifdef_stack->instance); 
-                                if (ifdef_stack->instance->index < 0)
+                                int last_if = * (int*) ifdef_stack->pop(ifdef_stack->instance);
+                                if (last_if == 0)
                                 {
                                     if (final_pass)
                                     {
-- 
2.43.0


From 078cd980baa2b6c84456520cbab6ed463952dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 10/81] fix: comments, strings and dotted names in skipped text
 are not directives

---
 CMakePasm/source/pasm.l | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 9efbb56..0ee936d 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -217,6 +217,11 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                     BEGIN(INITIAL); 
                                 }
                             }
+<IF_DEF>{SYMB}              { /* ignore names, they may contain dots */ }
+<IF_DEF>{STRVALUE}          { /* ignore strings */ }
+<IF_DEF>;[^\n]*             { /* ignore comments */ }
+<IF_DEF>[/][/][^\n]*        { /* ignore comments */ }
+<IF_DEF>"/*"([^*]|[*]+[^*/])*[*]+"/"  { /* ignore comments */ }
 <IF_DEF>.|[\n]              { /* ignore ifdef false */ }
 ".ENDIF"                    {  
                                 P_TOK("ENDIF")
-- 
2.43.0


From 10e2e077ad60b58b16a00773ac43bc0b4f602539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 11/81] fix: .else without a conditional is a syntax error
 instead of a crash

---
 CMakePasm/source/pasm.l | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 0ee936d..93968df 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -242,6 +242,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".ELSE"                     {
                                 P_TOK("ELSE")
                                 SV_TOK
+                                if (ifdef_stack->instance->index < 0) return ELSE;
+
                                 int last_if = * (int*) ifdef_stack->top(ifdef_stack->instance);
                                 if (last_if != 0)
                                 {
-- 
2.43.0


From 2c2e2d6ab61cb81351b00250b6a1e47222701273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 12/81] fix: each pass starts with the command line's cpu,
 illegal opcode and warning settings

---
 CMakePasm/source/pass.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 4f8eaf3..a47367b 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -14,6 +14,7 @@
 #include "genlist.h"
 #include "genoutput.h"
 #include "memory.h"
+#include "opcodes.h"
 #include "pasm.h"
 #include "pasm.tab.h"
 #include "stacks.h"
@@ -187,9 +188,18 @@ int assemble(void)
         }
     }
 
+    // settings from the command line, each pass starts with them
+    const auto initial_cpu_mode = cpu_mode;
+    const auto initial_allow_illegal_op_codes = allow_illegal_op_codes;
+    const auto initial_ignore_warnings = ignore_warnings;
+
     int clean_pass_count = 0;
     do
     {
+        cpu_mode = initial_cpu_mode;
+        allow_illegal_op_codes = initial_allow_illegal_op_codes;
+        ignore_warnings = initial_ignore_warnings;
+
         if (verbose)
         {
             fprintf(console, "Pass %d\n", pass);
@@ -235,6 +245,10 @@ int assemble(void)
     if (verbose)
         fprintf(console, "Final Pass\n");
 
+    cpu_mode = initial_cpu_mode;
+    allow_illegal_op_codes = initial_allow_illegal_op_codes;
+    ignore_warnings = initial_ignore_warnings;
+
     // set final pass flag
     final_pass = true;
 
-- 
2.43.0


From 93c174769c294c6385ff45bdee5d81fe16ab3859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 13/81] fix: an unterminated comment or conditional at the end
 of the input is an error

---
 CMakePasm/source/pasm.l | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 93968df..08cf4db 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -451,6 +451,12 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                 }
                                 if ( !YY_CURRENT_BUFFER )
                                 {
+                                    // a comment or conditional is not terminated
+                                    if (YY_START != INITIAL || ifdef_stack->instance->index >= 0)
+                                    {
+                                        yyerror("Parse: unexpected end of file");
+                                        BEGIN(INITIAL);
+                                    }
                                     yyterminate();
                                 }
                             }      
-- 
2.43.0


From 57f2700b579bba1ef11213b1c949e42f648a6021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 14/81] fix: a program without .org is placed at the default
 address

---
 CMakePasm/source/expand.cc    | 9 +++++----
 CMakePasm/source/genoutput.cc | 9 ++++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 16b18fa..56099ba 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -683,7 +683,11 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
 //
 int expand_data_node(const parse_node_ptr p)
 {
-    origin_specified = true;
+    if (!origin_specified)
+    {
+        origin = program_counter;
+        origin_specified = true;
+    }
 
     expansion_type = data_bytes;
     data_size = p->data.size;
@@ -806,9 +810,6 @@ int expand_op_code_node(const parse_node_ptr p)
     const int save_instruction = p->opcode.instruction;
     int op_bytes;
 
-    if (program_counter_assigned > 0)
-        origin_specified = true;
-
     p->opcode.program_counter = program_counter;
  
     switch (p->opcode.mode)
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index b921c1f..a4a308e 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -261,9 +261,16 @@ int generate_output(FILE* file, const parse_node_ptr p)
     const int start_bytes = total_bytes_written;
 
     // if there is no output file exit
-    if (file == NULL || !origin_specified)
+    if (file == NULL)
         return 0;
 
+    // without .org or *= the program starts at the current program counter
+    if (!origin_specified)
+    {
+        origin = program_counter;
+        origin_specified = true;
+    }
+
     // header
     if (total_bytes_written == 0)
     {
-- 
2.43.0


From 6caf71fe87ff1e3d114266e575f032157bf5a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 15/81] fix: a reservation before emitted code is detected
 after a header or *= too

---
 CMakePasm/source/expand.cc    | 7 +++++--
 CMakePasm/source/genoutput.cc | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 56099ba..c8cf378 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -41,6 +41,7 @@ static int program_counter_assigned = 0;
 static int code_generated = 0;
 int max_macro_param = 0;
 extern int origin;
+extern int byte_delta;
 
 // for 6502 and 65C02
 int max_address = 0xFFFF;
@@ -1103,7 +1104,9 @@ int expand_operator_program_counter_assign_node(const parse_node_ptr p)
     origin_specified = true;
 
     program_counter = op;
-    origin = op;
+
+    // the bytes written so far are not part of the run starting here
+    origin = op - (total_bytes_written - byte_delta);
     return 0;
 }
 
@@ -1123,7 +1126,7 @@ int expand_operator_org_node(const parse_node_ptr p)
     }
     const int op = expand_node(p->op[0]);
     program_counter = op;
-    origin = op;
+    origin = op - (total_bytes_written - byte_delta);
     origin_specified = true;
     org_origin_specified = true;
     return 0;
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index a4a308e..cd7565a 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -17,7 +17,7 @@
 
 // number of byte written to output file
 int total_bytes_written = 0;
-static int byte_delta = 0;
+int byte_delta = 0;
 int origin = 0;
 
 int write_byte(FILE* file, unsigned char ch);
@@ -281,7 +281,7 @@ int generate_output(FILE* file, const parse_node_ptr p)
         }
     }
 
-    const int delta = program_counter - (origin + total_bytes_written);
+    const int delta = program_counter - (origin + total_bytes_written - byte_delta);
     if (delta > 0)
     {
         error(error_value_out_of_range);
-- 
2.43.0


From 1fc1c1571ed1dd99caa128b4937fd4b0cd9e6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 16/81] fix: operands that do not fit their instruction are
 errors

---
 CMakePasm/source/genoutput.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index cd7565a..41ad293 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -231,6 +231,15 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
             }
             op &= 0xFF;
         }
+        else
+        {
+            // the same limits as for data
+            const int max_value = bytes == 1 ? 0xFF : 0xFFFF;
+            if (op > max_value || op < -(max_value - 1))
+            {
+                error(error_value_out_of_range);
+            }
+        }
 
         data_size = bytes;
         bytes_written = write_data(output_file, op);
-- 
2.43.0


From 884d74f3527fa57b0f0223086eb12c1379e41c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 17/81] fix: .fill with a count of zero takes no space in any
 pass

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c8cf378..16243ee 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -406,7 +406,7 @@ int expand_operator_fill_node(const parse_node_ptr p)
     }
     else
     {
-        program_counter += count > 0 ? count : 1;
+        program_counter += count;
     }
     return byt;
 }
-- 
2.43.0


From e63c1fa77add8946c98f77e2d97af21b83662fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 18/81] fix: .load of a missing file is an error instead of a
 crash

---
 CMakePasm/source/expand.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 16243ee..4e904b7 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -421,6 +421,7 @@ int expand_operator_load_node(const parse_node_ptr p)
     if (fd == nullptr)
     {
         error(error_cant_open_include_file);
+        return 0;
     }
 
     fseek(fd, 0, SEEK_END);
-- 
2.43.0


From 7f0b454a678f0c2386fae2c3f9241df65c50c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 19/81] fix: anonymous label lookup stays within its table

---
 CMakePasm/source/sym.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 2e16c48..e2debdb 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -345,7 +345,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 || found_index < minus_symbol_table_index)
+        if (found_index >= 0 && found_index < minus_symbol_table_index)
             return found_index;
     }
     return -1;
@@ -369,7 +369,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index -1 + depth;
-        if (found_index >= 0 || found_index < plus_symbol_table_index)
+        if (found_index >= 0 && found_index < plus_symbol_table_index)
             return found_index;
     }
     return -1;
-- 
2.43.0


From 3a04707a4e48f7ff4dd6761abe9e3329dde7d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 20/81] fix: a reference to an anonymous label that does not
 exist is an error

---
 CMakePasm/source/expand.cc | 5 +++++
 CMakePasm/source/sym.cc    | 6 ++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4e904b7..7bdc51f 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -497,6 +497,11 @@ int expand_plus_minus_node(const parse_node_ptr p)
         sym->is_initialized = true;
         sym->times_accessed++;
     }
+    else if (final_pass)
+    {
+        // there is no such label
+        error(error_adding_symbol);
+    }
     p->id.i = sym;
 
     return sym->value;
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index e2debdb..f8923e8 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -345,7 +345,8 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index + 1 - depth;
-        if (found_index >= 0 && found_index < minus_symbol_table_index)
+        if (found_index >= 0 && found_index < minus_symbol_table_index &&
+            stricmp(file, minus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
@@ -369,7 +370,8 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     if (found_index >= 0)
     {
         found_index = found_index -1 + depth;
-        if (found_index >= 0 && found_index < plus_symbol_table_index)
+        if (found_index >= 0 && found_index < plus_symbol_table_index &&
+            stricmp(file, plus_symbol_table[found_index].file) == 0)
             return found_index;
     }
     return -1;
-- 
2.43.0


From d1d11a287a5bc8ba78ed96a8576fb3335d9b814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 21/81] fix: growing a dictionary keeps the most recent entry
 of a key in front and its values in place

---
 CMakePasm/source/dictionary.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/dictionary.cc b/CMakePasm/source/dictionary.cc
index a49689e..9f4a638 100644
--- a/CMakePasm/source/dictionary.cc
+++ b/CMakePasm/source/dictionary.cc
@@ -122,12 +122,25 @@ static dictionary_ptr grow(const dictionary_ptr d)
     d2->collisions = 0;
     for (int index = 0; index < d->size; index++)
     {
-        for (element_ptr element = d->table[index]; element != 0; element = element->next)
+        element_ptr next;
+        for (element_ptr element = d->table[index]; element != 0; element = next)
         {
-            /* note: this recopies everything */
-            /* a more efficient implementation would
-             * to avoid this problem */
-            dict_insert(&d2, element->key, element->value);
+            /* move the element itself, so that pointers to its value stay valid, and append it,
+             * so that the most recent entry of a key stays in front */
+            next = element->next;
+            element->next = 0;
+
+            const unsigned long h = (d->key_type == 0
+                ? hash_function(static_cast<const char*>(element->key))
+                : hash_pointer_function(element->key)) % d2->size;
+
+            element_ptr* link = &d2->table[h];
+            if (*link)
+                d2->collisions++;
+            while (*link)
+                link = &(*link)->next;
+            *link = element;
+            d2->number_elements++;
         }
     }
 
-- 
2.43.0


From 5d859c1eba2d9746263403f37fb2e91321e649d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 22/81] fix: division by zero is judged on final values

---
 CMakePasm/source/expand.cc | 20 +++++++++++++++++---
 CMakePasm/source/expand.h  |  1 +
 CMakePasm/source/node.cc   |  4 ++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7bdc51f..3f871c2 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -52,6 +52,9 @@ int sym_value_changed = 0;
 // nest level of expand_node();
 int expand_level = 0;
 
+// set while operands are evaluated to choose an addressing mode
+bool parsing_operand = false;
+
 dictionary_ptr macro_dict = nullptr;
 
 int print_list_state = 1;
@@ -1837,12 +1840,23 @@ int expand_operator_multiply_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_divide_node(const parse_node_ptr p)
 {
-    if (expand_node(p->op[1]) == 0)
+    const int divisor = expand_node(p->op[1]);
+    if (divisor == 0)
     {
-        error(error_divide_by_zero);
+        // values may not be known yet before the final pass, or while a statement is parsed
+        if (final_pass && !parsing_operand)
+        {
+            error(error_divide_by_zero);
+        }
         return 0;
     }
-    return expand_node(p->op[0]) / expand_node(p->op[1]);
+    const int dividend = expand_node(p->op[0]);
+    if (divisor == -1)
+    {
+        // the quotient of the smallest number does not fit
+        return static_cast<int>(0U - static_cast<unsigned int>(dividend));
+    }
+    return dividend / divisor;
 }
 
 /// <summary>
diff --git a/CMakePasm/source/expand.h b/CMakePasm/source/expand.h
index de008c0..572f098 100644
--- a/CMakePasm/source/expand.h
+++ b/CMakePasm/source/expand.h
@@ -14,6 +14,7 @@ extern int is_uninitialized_symbol(parse_node_ptr p);
 extern bool has_uninitialized_symbol(parse_node_ptr p);
 extern int get_op_byte_count(parse_node_ptr p);
 
+extern bool parsing_operand;
 extern int sym_value_changed;
 extern int print_list_state;
 extern int end_expansion;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 8e68a3a..46f9215 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -348,11 +348,13 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
     if (number_of_ops > 0)
     {
         va_start(ap, number_of_ops);
+        parsing_operand = true;
         for (index = 0; index < number_of_ops; index++)
         {
             p->op[index] = va_arg(ap, parse_node_ptr);
             val = expand_node(p->op[index]);
         }
+        parsing_operand = false;
         va_end(ap);
     }
     const bool has_uninitialized = has_uninitialized_symbol(p);
@@ -423,11 +425,13 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
         }
     }
 
+    parsing_operand = true;
     for (index = 0; index < number_of_ops; index++)
     {
         if (p->op[index])
             expand_node(p->op[index]);
     }
+    parsing_operand = false;
 
     p->opcode.opcode = code;
     if (code < 0)
-- 
2.43.0


From 65fc8195e7f1cfc30f41a40fbe4056558412c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 23/81] fix: two byte values of .str appear in the listing

---
 CMakePasm/source/node.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 46f9215..2827fd3 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1685,11 +1685,11 @@ int generate_list_node(const parse_node_ptr p)
             hi = 0;
         }
         // check for overflow
-        if (hi != 0 && data_size < 2)
+        if (hi != 0 && data_size == 1)
         {
-            FREE(current_buffer);
             // This error is reported in generate_output
             fprintf(console, "%s\n", current_buffer);
+            FREE(current_buffer);
             return 0;
         }
 
@@ -1708,7 +1708,7 @@ int generate_list_node(const parse_node_ptr p)
         current_ptr += strlen(current_ptr);
 
         // output hi byte
-        if (data_size > 1)
+        if (data_size > 1 || (data_size == 0 && hi != 0))
         {
             sprintf(current_ptr, " $%02X", hi);
             current_ptr += strlen(current_ptr);
-- 
2.43.0


From 9be78ffe4d87242e2cb452fb2ff11e3cc1f9600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 24/81] fix: padded strings and control characters are listed
 as the bytes they emit

---
 CMakePasm/source/node.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 2827fd3..150ab2c 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1626,6 +1626,15 @@ int generate_list_node(const parse_node_ptr p)
         // if using a string with WORD then pad to a word boundary
         if (data_size == 2 && p->str.len % 2)
         {
+            if (col == 0)
+            {
+                // the pad starts a new node
+                string_start = str;
+                current_ptr = current_buffer;
+                op = (program_counter + bytes) & 0xFFFF;
+                sprintf(current_ptr, "$%02X%02X:", ((op) >> 8), op & 0xFF);
+                current_ptr += strlen(current_ptr);
+            }
             col++;
             sprintf(current_ptr, " $%02X", *str & 0xFF);
             current_ptr += strlen(current_ptr);
@@ -1653,10 +1662,14 @@ int generate_list_node(const parse_node_ptr p)
                 {
                     sprintf(current_ptr, "$%02X", string_start[len]);
                 }
-                else
+                else if (isprint(string_start[len]))
                 {
                     sprintf(current_ptr, "'%c'", string_start[len]);
                 }
+                else
+                {
+                    sprintf(current_ptr, "$%02X", string_start[len] & 0xFF);
+                }
                 current_ptr += strlen(current_ptr);
             }
 
-- 
2.43.0


From cef24f3cfe95aa1ab0702541893f610e75ef2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 25/81] fix: == after the program counter is a comparison, not
 an assignment

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 08cf4db..d5fe8cf 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -376,7 +376,7 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
 [\'][\\][0-7]{3}[\']        { SV_TOK INT(2, 8) }
 
 {STRVALUE}                  { P_TOK("STRING_LITERAL") SV_TOK yylval.strValue = (char*)STRDUP(yytext); return STRING_LITERAL; }
-"*"[ \t]*[=]                { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
+"*"[ \t]*"="/[^=]           { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
 "*"[ \t]*".EQU"             { P_TOK("PCASSIGN") SV_TOK unput('='); return PCASSIGN; }
 "X"                         { P_TOK("X") SV_TOK return 'X'; }
 "Y"                         { P_TOK("Y") SV_TOK return 'Y'; }
-- 
2.43.0


From 26d10a7cd656029fdc268824070ef1d18f1a8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 26/81] fix: a branch in another addressing mode, or without a
 target, is an error

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 150ab2c..a2903ee 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -335,7 +335,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
 
     // a branch will look like absolute addressing so we check to
     // see if it really relative
-    if (get_op_code(op, r) != -1)
+    if (mode == a && get_op_code(op, r) != -1)
     {
         mode = r;
     }
-- 
2.43.0


From 66ffe5995601598887b74f133310f4d47489fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 27/81] fix: the 65C02 page zero indirect mode has a one byte
 operand

---
 CMakePasm/source/expand.cc    |  2 +-
 CMakePasm/source/genoutput.cc |  3 ++-
 CMakePasm/source/node.cc      |  2 +-
 CMakePasm/source/opcodes.cc   | 15 +++++++++++++++
 CMakePasm/source/opcodes.h    |  1 +
 5 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 3f871c2..71c6e76 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1021,7 +1021,7 @@ int expand_op_code_node(const parse_node_ptr p)
         // page zero optimization
         if (!large_op && p->opcode.mode != mode_check)
         {
-            code2 = get_op_code(p->opcode.instruction, mode_check);
+            code2 = get_page_zero_op_code(p->opcode.instruction, mode_check);
             if (code2 != -1)
             {
                 p->opcode.mode = mode_check;
diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index 41ad293..fea5662 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -235,7 +235,8 @@ int write_opcode_node(FILE* file, const parse_node_ptr p)
         {
             // the same limits as for data
             const int max_value = bytes == 1 ? 0xFF : 0xFFFF;
-            if (op > max_value || op < -(max_value - 1))
+            if (op > max_value || op < -(max_value - 1) ||
+                (p->opcode.mode == ind && p->opcode.instruction != _jmp))
             {
                 error(error_value_out_of_range);
             }
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index a2903ee..3fa581e 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -417,7 +417,7 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
     }
     if (new_mode != mode)
     {
-        const int temp_code = get_op_code(op, new_mode);
+        const int temp_code = get_page_zero_op_code(op, new_mode);
         if (temp_code != -1)
         {
             p->opcode.mode = new_mode;
diff --git a/CMakePasm/source/opcodes.cc b/CMakePasm/source/opcodes.cc
index 690bdcb..ed800ae 100644
--- a/CMakePasm/source/opcodes.cc
+++ b/CMakePasm/source/opcodes.cc
@@ -466,6 +466,21 @@ int get_op_code(const int instruction, const int addressing_mode)
 }
 
 
+/**
+ * \brief get the opcode for an instruction and a page zero addressing mode
+ * The 65C02 page zero indirect opcodes are in the indirect column, only jmp has a two byte operand there
+ * \param instruction instruction to get the opcode for
+ * \param addressing_mode addressing mode of instruction
+ * \return opcode or -1 if not found
+ */
+int get_page_zero_op_code(const int instruction, const int addressing_mode)
+{
+    if (addressing_mode == zpi && instruction != _jmp)
+        return get_op_code(instruction, ind);
+
+    return get_op_code(instruction, addressing_mode);
+}
+
 /**
  * \brief Get string representation of instruction
  * \param instruction instruction to get the string for
diff --git a/CMakePasm/source/opcodes.h b/CMakePasm/source/opcodes.h
index 969d984..9abc4f8 100644
--- a/CMakePasm/source/opcodes.h
+++ b/CMakePasm/source/opcodes.h
@@ -161,6 +161,7 @@ typedef enum
     max_addressing_mode
 } addressing_modes;
 
+extern int get_page_zero_op_code(int instruction, int addressing_mode);
 extern int get_op_code(int instruction, int addressing_mode);
 extern char* instruction_to_string(int instruction);
 extern char* mode_to_string(int mode);
-- 
2.43.0


From d3aa2f0415dc97f776fc5b6617dcfc77482f88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 28/81] fix: a variable initialised with a single symbol gets
 that symbol's value

---
 CMakePasm/source/expand.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 71c6e76..43623e5 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1170,6 +1170,13 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             {
             case type_id:
             case type_label:
+                if (symbol_ptr != nullptr)
+                {
+                    // the initial value of the variable is that of another symbol
+                    set_symbol_value(symbol_ptr, expand_node(pp));
+                    symbol_ptr = nullptr;
+                    break;
+                }
                 symbol_ptr = pp->id.i;
                 if (symbol_ptr == nullptr)
                 {
-- 
2.43.0


From c271d4d51ac871b4b3ffb27d0c4bceb74c4e554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 29/81] fix: an undefined symbol used alone as a data value is
 an error

---
 CMakePasm/source/expand.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 43623e5..e4c893b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1243,6 +1243,10 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             break;
 
         case data_bytes:
+            // a symbol on its own must be known to be unresolved, too
+            if (pp->type == type_id)
+                expand_node(pp);
+
             if (!has_uninitialized_symbol(pp))
             {
                 if (final_pass)
-- 
2.43.0


From 28a66dcee43870c3349a77c46bbc0b0a42005483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 30/81] fix: an undefined local label before the first label is
 an error

---
 CMakePasm/source/sym.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index f8923e8..8445291 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -210,8 +210,6 @@ symbol_table_ptr add_symbol(char* name)
     if (sym.name[0] == '@')
     {
         sym.is_local = true;
-        sym.is_initialized = true;
-        sym.value = 0;
     }
 
     current_scope = temp_section;
-- 
2.43.0


From 9796516f73c09897beff3ab150a39ac7cb8bdfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:48 +0000
Subject: [PATCH 31/81] fix: logical operators resolve the symbols of both
 sides

---
 CMakePasm/source/expand.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index e4c893b..902e6f7 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1927,7 +1927,10 @@ int expand_operator_greater_than_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_or_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) || expand_node(p->op[1]);
+    // both sides are always expanded, so that their symbols are resolved
+    const int left = expand_node(p->op[0]);
+    const int right = expand_node(p->op[1]);
+    return left || right;
 }
 
 /// <summary>
@@ -1937,7 +1940,10 @@ int expand_operator_or_node(const parse_node_ptr p)
 /// <returns>int.</returns>
 int expand_operator_and_node(const parse_node_ptr p)
 {
-    return expand_node(p->op[0]) && expand_node(p->op[1]);
+    // both sides are always expanded, so that their symbols are resolved
+    const int left = expand_node(p->op[0]);
+    const int right = expand_node(p->op[1]);
+    return left && right;
 }
 
 /// <summary>
-- 
2.43.0


From 4532de6fd1701718fee1f9eb14aa2a4021b6b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 32/81] fix: -d with a value out of range fails

---
 CMakePasm/source/parseargs.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index 966c519..011d8c9 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -324,6 +324,12 @@ int parse_arguments(const int argc, char* argv[])
                 sym_val = (int)strtol(val, NULL, 10);
             }
 
+            if ((sym_val & ~0xFFFF) != 0)
+            {
+                error(error_value_out_of_range);
+                exit(-1);
+            }
+
             // ReSharper disable once CppLocalVariableMayBeConst
             symbol_table_ptr sym = add_symbol(sym_name);
             if (sym != NULL)
-- 
2.43.0


From d743757f21bf6cb73de2f6947d4e2d7eec75be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 33/81] fix: the range of an equate or macro argument is judged
 on its final value

---
 CMakePasm/source/sym.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 8445291..1886f54 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -272,14 +272,21 @@ symbol_table_ptr look_up_symbol(const char* name)
     return tmp_ptr;
 } 
 
-symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, const int value)
+symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, int value)
 {
     if ((sym != NULL) && (sym->value != value))
     {
         if (((value & ~0xFFFF) != 0) && !sym->is_var)
         {
-            error(error_value_out_of_range);
-            return NULL;
+            // before the final pass the value may depend on symbols that are not known yet
+            if (final_pass)
+            {
+                error(error_value_out_of_range);
+                return NULL;
+            }
+            value &= 0xFFFF;
+            if (sym->value == value)
+                return sym;
         }
         sym->value = value;
         if (!sym->is_macro_param && !sym->is_var)
-- 
2.43.0


From 59da89060221a9a7105047b94b5a2d5bb7e119de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 34/81] fix: macro parameters are found in a call inside a
 section

---
 CMakePasm/source/sym.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 1886f54..ae66ab0 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -145,7 +145,8 @@ symbol_table_ptr add_symbol(char* name)
         }
     }
 
-    if (strstr(name, "."))
+    // macro parameters do not belong to a section
+    if (strstr(name, ".") || name[0] == '\\')
         current_scope = NULL;
 
     if (name[0] == '.')
-- 
2.43.0


From bc3226c4756c7ee5c999c8d9a223e8b48f3897f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 35/81] fix: local labels of a macro defined after a label are
 private to each call

---
 CMakePasm/source/expand.cc | 4 ++++
 CMakePasm/source/node.cc   | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 902e6f7..25ab407 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -521,6 +521,10 @@ int expand_id_node(const parse_node_ptr p)
     symbol_table_ptr sym = p->id.i;
     if (p->id.name[0] == '@')
     {
+        // the local labels of a macro belong to its calls, not to its definition
+        if (in_macro_definition > 0)
+            return 0;
+
         sym = add_symbol(p->id.name);
         p->id.i = sym;
     }
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 3fa581e..72da43e 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -195,7 +195,7 @@ parse_node_ptr label_node(char* name)
 {
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
         last_label = name;
-    else if (last_label != nullptr && name[0] == '@')
+    else if (last_label != nullptr && name[0] == '@' && in_macro_definition == 0)
     {
         return id_node_common(format_local_sym(name, last_label), type_label);
     }
-- 
2.43.0


From e042c78fc927f3a6b763a9b2d073ca88b57e75d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 36/81] fix: a symbol defined after its use in a section may be
 a global one

---
 CMakePasm/source/sym.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index ae66ab0..68dee48 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -246,6 +246,7 @@ symbol_table_ptr look_up_symbol(const char* name)
         return NULL;
     }
 
+    symbol_table_ptr placeholder = NULL;
     if (current_scope)
     {
         const int len = static_cast<int>(strlen(current_scope)) + static_cast<int>(strlen(name)) + 2;
@@ -259,15 +260,21 @@ symbol_table_ptr look_up_symbol(const char* name)
         // ReSharper disable once CppLocalVariableMayBeConst
         auto tmp_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, temp_name));
         FREE(temp_name);
-        if (tmp_ptr)
+        if (tmp_ptr && (tmp_ptr->is_initialized || tmp_ptr->is_var))
         {
             tmp_ptr->times_accessed++;
             return tmp_ptr;
         }
+        placeholder = tmp_ptr;
     }
 
     // ReSharper disable once CppLocalVariableMayBeConst
     auto tmp_ptr = static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, name));
+
+    // the section does not define the symbol (yet)
+    if (placeholder && (tmp_ptr == NULL || !tmp_ptr->is_initialized))
+        tmp_ptr = placeholder;
+
     if (tmp_ptr)
         tmp_ptr->times_accessed++;
     return tmp_ptr;
@@ -809,7 +816,12 @@ int unresolved_symbol_count(void)
             if (sym->is_initialized == false && sym->is_macro_name == false &&
                 sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
             {
-                count++;
+                // referred to in a section before the symbol was defined outside
+                const auto global = sym->scope
+                    ? static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, sym->name))
+                    : NULL;
+                if (global == NULL || !global->is_initialized)
+                    count++;
             }
         }
     }
-- 
2.43.0


From 442aeb484a63f43ac26fe4248f111806f7aeb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:25 +0000
Subject: [PATCH 37/81] fix: an assignment to a variable in a section changes
 the variable

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 25ab407..ff7c8d7 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1772,7 +1772,8 @@ int expand_operator_equ_node(const parse_node_ptr p)
 
     if (!sym->is_initialized || sym->value != op)
     {
-        if (!sym->scope && current_scope)
+        // a variable keeps its name when it is assigned in a section
+        if (!sym->scope && current_scope && !sym->is_var)
         {
             const int len = strlen(sym->name) + strlen(current_scope) + 2;
             char* temp = static_cast<char*>(MALLOC(len));
-- 
2.43.0


From c6aa426e2f855f49756ea3b051a9af2fd73a892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:08 +0000
Subject: [PATCH 38/81] fix: the arguments of a macro call are evaluated before
 its parameters are set

---
 CMakePasm/source/expand.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index ff7c8d7..0ba410a 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -16,6 +16,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <utility>
+#include <vector>
 
 #include "expand.h"
 #include "dictionary.h"
@@ -187,6 +189,11 @@ int end_expansion = 0;
 //
 int macro_parameter_index = 0;
 
+//
+// argument values of a macro call
+//
+static std::vector<std::pair<symbol_table_ptr, int>> macro_arguments;
+
 //
 // flag to unroll loops
 // always true for now
@@ -1236,7 +1243,9 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
             symbol_ptr = add_symbol(sym_name);
             if (symbol_ptr != nullptr)
             {
-                set_symbol_value(symbol_ptr, expand_node(pp));
+                // the parameters are set when all arguments are known, an argument may
+                // refer to the parameters of the calling macro
+                macro_arguments.emplace_back(symbol_ptr, expand_node(pp));
                 symbol_ptr->is_initialized = true;
             }
             else
@@ -1440,10 +1449,14 @@ int expand_macro_expansion_node(const parse_node_ptr p)
 
     expansion_type = macro_parameter;
     macro_parameter_index = 0;
+    macro_arguments.clear();
 
     if (p->macro.macro_params != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro_params));
 
+    for (const auto& argument : macro_arguments)
+        set_symbol_value(argument.first, argument.second);
+
     char* temp = last_label;
     sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
     last_label = (char*) STRDUP(internal_buffer);
-- 
2.43.0


From d178bb11eea95856060c57473bc623265d83bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:41 +0000
Subject: [PATCH 39/81] fix: .fill as the first output after a header emits its
 count

---
 CMakePasm/source/expand.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 0ba410a..32d6507 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -389,12 +389,10 @@ int expand_operator_fill_node(const parse_node_ptr p)
                 {
                     generate_fill_node2 = data_node(data_word, constant_node(byt << 8 | byt, false));
                 }
-                int bytes = generate_output(output_file, generate_fill_node2);
-                if (bytes == 0)
-                    bytes = 2;
+                generate_output(output_file, generate_fill_node2);
                 generate_list_node(generate_fill_node2);
-                program_counter += bytes;
-                count -= bytes;
+                program_counter += 2;
+                count -= 2;
 
             }
             else if (count == 1)
@@ -404,12 +402,10 @@ int expand_operator_fill_node(const parse_node_ptr p)
                 {
                     generate_fill_node1 = data_node(data_byte, constant_node(byt, false));
                 }
-                int bytes = generate_output(output_file, generate_fill_node1);
-                if (bytes == 0)
-                    bytes = 1;
+                generate_output(output_file, generate_fill_node1);
                 generate_list_node(generate_fill_node1);
-                program_counter += bytes;
-                count -= bytes;
+                program_counter += 1;
+                count -= 1;
 
             }
         }
-- 
2.43.0


From 6b2fe3cd231ad37a032dfa4dea03716c63c8a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 40/81] fix: * in the target of a relaxed branch is the address
 of the branch

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 32d6507..7cf1361 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -983,7 +983,8 @@ int expand_op_code_node(const parse_node_ptr p)
                     if (code2 != -1)
                     {
                         const parse_node_ptr target = p->op[index];
-                        const parse_node_ptr jmp = opcode_node(_jmp, a, 1, target);
+                        // a * in the target is the address of the branch, not of the jmp
+                        const parse_node_ptr jmp = opcode_node(_jmp, a, 1, constant_node(op_value, 0));
 
                         if (target == nullptr || jmp == nullptr)
                         {
-- 
2.43.0


From efd7850d1c4a1c3f980ec77ce2d4ac7297cd234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 41/81] fix: the range of .fill is judged on final values

---
 CMakePasm/source/expand.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 7cf1361..c265827 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -364,15 +364,20 @@ int expand_operator_fill_node(const parse_node_ptr p)
     const int byt = expand_node(p->op[0]);
     int count = expand_node(p->op[1]);
 
-    if (byt < 0 || byt > 255)
+    // symbols may not have their final values before the final pass
+    if (final_pass && (byt < 0 || byt > 255))
     {
         error(error_value_out_of_range);
         exit(-1);
     }
     if (count < 0)
     {
-        error(error_value_out_of_range);
-        exit(-1);
+        if (final_pass)
+        {
+            error(error_value_out_of_range);
+            exit(-1);
+        }
+        count = 0;
     }
     if (final_pass) 
     {
-- 
2.43.0


From d3b1a763d5f93d6784df290b9ecb0696b37b3cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 42/81] fix: strings may contain zero bytes

---
 CMakePasm/source/genoutput.cc | 7 +++----
 CMakePasm/source/node.cc      | 3 +--
 CMakePasm/source/str.cc       | 6 +++++-
 CMakePasm/source/str.h        | 2 +-
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index fea5662..a6a3e25 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -22,7 +22,7 @@ int origin = 0;
 
 int write_byte(FILE* file, unsigned char ch);
 int write_word(FILE* file, int word);
-int write_string(FILE* file, const char* str);
+int write_string(FILE* file, const char* str, size_t len);
 
 /**
  * \brief reset output variables
@@ -71,9 +71,8 @@ int write_word(FILE* file, const int word)
     return bytes_written;
 }
 
-int write_string(FILE* file, const char* str)
+int write_string(FILE* file, const char* str, const size_t len)
 {
-    const size_t len = strlen(str);
     // ReSharper disable once CppRedundantCastExpression
     const int bytes_written = static_cast<int>(fwrite(str, 1, len, file));
     if (bytes_written < static_cast<int>(len))
@@ -123,7 +122,7 @@ int write_program_counter_pad(FILE* file, const int delta)
 
 int write_string_node(FILE* file, const parse_node_ptr p)
 {
-    int bytes_written = write_string(output_file, p->str.value);
+    int bytes_written = write_string(output_file, p->str.value, p->str.len);
     total_bytes_written += (int)bytes_written;
     if (bytes_written < p->str.len)
     {
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 72da43e..ef5092c 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -142,13 +142,12 @@ parse_node_ptr string_node(const char* value)
     if (p->str.value)
         FREE(p->str.value);
 
-    p->str.value = sanitize_string(str);
+    p->str.value = sanitize_string(str, &p->str.len);
     if (p->str.value == nullptr)
     {
         error(error_out_of_memory);
         exit(-1);  // NOLINT(concurrency-mt-unsafe)
     }
-    p->str.len = static_cast<int>(strlen(p->str.value));
 
     return p;
 }
diff --git a/CMakePasm/source/str.cc b/CMakePasm/source/str.cc
index 5688386..cdb2ba1 100644
--- a/CMakePasm/source/str.cc
+++ b/CMakePasm/source/str.cc
@@ -13,9 +13,10 @@
 /**
  * \brief Normalize a string that may contain escape chars
  * \param str string to normalize
+ * \param length receives the length of the result, which may contain zero bytes
  * \return a newly allocated string
  */
-char* sanitize_string(char* str)
+char* sanitize_string(char* str, int* length)
 {
     const int len = static_cast<int>(strlen(str)) + 1;
 
@@ -107,5 +108,8 @@ char* sanitize_string(char* str)
         }
     }
 
+    if (length != nullptr)
+        *length = static_cast<int>(tmp_str - out_str);
+
     return out_str;
 }
diff --git a/CMakePasm/source/str.h b/CMakePasm/source/str.h
index 0fcec2b..aca5c46 100644
--- a/CMakePasm/source/str.h
+++ b/CMakePasm/source/str.h
@@ -1,3 +1,3 @@
 #pragma once
 
-extern char* sanitize_string(char* str);
+extern char* sanitize_string(char* str, int* length = nullptr);
-- 
2.43.0


From 7620352eae20b146ce8539c0d1f5113fdb306f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:50 +0000
Subject: [PATCH 43/81] fix: .ifdef and .ifndef see the symbols defined before
 them in the source

---
 CMakePasm/source/expand.cc    |  3 +++
 CMakePasm/source/parseargs.cc |  1 +
 CMakePasm/source/pasm.l       |  6 ++----
 CMakePasm/source/sym.cc       | 12 ++++++++++++
 CMakePasm/source/sym.h        |  5 +++++
 5 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c265827..c237447 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1204,6 +1204,7 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                 }
                 symbol_ptr->value = pp->type == type_label ? program_counter : 0;
                 symbol_ptr->is_initialized = true;
+                symbol_ptr->defined_pass = pass;
                 break;
 
             default:
@@ -1495,6 +1496,7 @@ int expand_operator_macro_definition_node(const parse_node_ptr p)
     p->id.i = sym;
     sym->is_macro_name = true;
     sym->is_initialized = true;
+    sym->defined_pass = pass;
     sym->macro_node = p->op[1];
     sym->value = program_counter;
     return 0;
@@ -1807,6 +1809,7 @@ int expand_operator_equ_node(const parse_node_ptr p)
         if (p->op[0]->type == type_label)
             sym->is_label = true;
     }
+    sym->defined_pass = pass;
     return op;
 }
 
diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index 011d8c9..0b15298 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -336,6 +336,7 @@ int parse_arguments(const int argc, char* argv[])
             {
                 set_symbol_value(sym, sym_val);
                 sym->is_initialized = true;
+                sym->defined_pass = DEFINED_IN_ALL_PASSES;
                 sym->times_accessed = 1000;
             }
             arg_index++;
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index d5fe8cf..3abd16f 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -164,8 +164,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 char* p = yytext;
                                 SKIP_WHITE(p)
 
-                                symbol_table_ptr sym = look_up_symbol(p); 
-                                if (sym == NULL)
+                                if (!is_symbol_defined(p))
                                 {
                                     BEGIN(IF_DEF);
                                 }
@@ -179,8 +178,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 char* p = yytext;
                                 SKIP_WHITE(p)
 
-                                symbol_table_ptr sym = look_up_symbol(p); 
-                                if (sym != NULL)
+                                if (is_symbol_defined(p))
                                 {
                                     BEGIN(IF_DEF);
                                 }
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 68dee48..85d56c3 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -280,6 +280,18 @@ symbol_table_ptr look_up_symbol(const char* name)
     return tmp_ptr;
 } 
 
+/// <summary>
+/// Determines if a symbol is defined on the command line or by the source read so far
+/// </summary>
+/// <param name="name">The name.</param>
+/// <returns>bool.</returns>
+bool is_symbol_defined(const char* name)
+{
+    const symbol_table_ptr sym = look_up_symbol(name);
+
+    return sym != NULL && (sym->defined_pass == pass || sym->defined_pass == DEFINED_IN_ALL_PASSES);
+}
+
 symbol_table_ptr set_symbol_value(const symbol_table_ptr sym, int value)
 {
     if ((sym != NULL) && (sym->value != value))
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 8636fb8..4ee63fa 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -27,14 +27,19 @@ typedef struct symbol_table
     char* name;
     char* fullname;
     void* macro_node;
+    int defined_pass;
 } symbol_table, * symbol_table_ptr;
 
+// defined_pass of a symbol defined on the command line
+#define DEFINED_IN_ALL_PASSES (-1)
+
 extern int print_symbol_element(const element_ptr e, FILE* file);
 extern int print_symbol(symbol_table_ptr sym, FILE* file);
 
 extern int find_minus_symbol(int depth, const char* file, int line);
 extern int find_plus_symbol(int depth, const char* file, int line);
 extern symbol_table_ptr look_up_symbol(const char*);
+extern bool is_symbol_defined(const char* name);
 extern char* format_local_sym(char* name, const char* label);
 extern char* format_local_plus_minus_sym(char* name, char* label);
 extern symbol_table_ptr add_symbol(char* name);
-- 
2.43.0


From 259558b30964f5b3965d7162dca72bf6f666497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:06 +0000
Subject: [PATCH 44/81] fix: the bounds of a register loop are judged on final
 values

---
 CMakePasm/source/expand.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index c237447..6da102d 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -599,20 +599,22 @@ int expand_operator_for_reg_node(const parse_node_ptr p)
     // get the start value
     const int start = expand_node(p->op[0]);
 
-    // range check
+    // range check, symbols may not have their final values before the final pass
     if (start < 0 || start > 255)
     {
-        error(error_value_out_of_range);
+        if (final_pass)
+            error(error_value_out_of_range);
         return 0;
     }
 
     // get the end value
     const int end = expand_node(p->op[1]);
 
-    // range check
+    // range check, symbols may not have their final values before the final pass
     if (end < 0 || end > 255)
     {
-        error(error_value_out_of_range);
+        if (final_pass)
+            error(error_value_out_of_range);
         return 0;
     }
 
-- 
2.43.0


From a5916ba4c9870bfa03f3c7c281984a5b6e0a0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 45/81] fix: a branch to a local label in a macro is relaxed
 like any other

---
 CMakePasm/source/expand.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 6da102d..da0f172 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -2074,6 +2074,9 @@ int is_uninitialized_symbol(const parse_node_ptr p)
 {
     if (p->type == type_label || p->type == type_id)
     {
+        // a local label belongs to the macro call being expanded
+        if (p->type == type_id && p->id.name[0] == '@')
+            expand_id_node(p);
         if (p->id.i == nullptr)
             return true;
         const symbol_table_ptr sym = p->id.i;
-- 
2.43.0


From 2a30a146528efa5f841b3ff339d976188dbfca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:29 +0000
Subject: [PATCH 46/81] fix: a file with anonymous labels may be included more
 than once

---
 CMakePasm/source/file.cc    |  2 ++
 CMakePasm/source/globals.cc |  6 ++++++
 CMakePasm/source/pasm.h     |  3 +++
 CMakePasm/source/pasm.l     |  1 +
 CMakePasm/source/pass.cc    |  2 ++
 CMakePasm/source/sym.cc     | 18 +++++++++++++-----
 CMakePasm/source/sym.h      |  1 +
 7 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 30d7f33..48750f0 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -189,10 +189,12 @@ int open_include_file(char* file)
     file_line_stack_entry file_line;
     file_line.file = current_file_name;
     file_line.line = yylineno;
+    file_line.inclusion = current_inclusion;
     
     file_stack->push(file_stack->instance, &file_line);
 
     current_file_name = file;
+    current_inclusion = ++inclusion_count;
 
     yyin = open_file(file, "r");
     yylineno = 0;
diff --git a/CMakePasm/source/globals.cc b/CMakePasm/source/globals.cc
index 346eeff..da166e7 100644
--- a/CMakePasm/source/globals.cc
+++ b/CMakePasm/source/globals.cc
@@ -39,6 +39,10 @@ char* log_file_name = nullptr;
 int in_macro_definition = 0;
 int output_file_format = bin;
 int pass = 0;
+
+// number of the file being read in this pass, counting inclusions
+int current_inclusion = 0;
+int inclusion_count = 0;
 int program_counter = 0;
 int data_size = 0;
 int input_file_count = 0;
@@ -90,6 +94,8 @@ void init_globals()
     in_macro_definition = 0;
     output_file_format = bin;
     pass = 0;
+    current_inclusion = 0;
+    inclusion_count = 0;
     program_counter = 0;
     data_size = 0;
     input_file_count = 0;
diff --git a/CMakePasm/source/pasm.h b/CMakePasm/source/pasm.h
index 4481399..f9455b5 100644
--- a/CMakePasm/source/pasm.h
+++ b/CMakePasm/source/pasm.h
@@ -18,6 +18,7 @@ typedef struct file_line_stack_entry
 {
     char* file;
     int line;
+    int inclusion;
 } file_line_stack_entry;
 
 extern void reset_lex(void);
@@ -34,6 +35,8 @@ extern bool verbose;
 extern int data_size;
 extern int output_file_format;
 extern int in_macro_definition;
+extern int current_inclusion;
+extern int inclusion_count;
 extern int pass;
 extern int program_counter;
 extern int input_file_count;
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 3abd16f..0e552f9 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -444,6 +444,7 @@ $[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
                                     const file_line_stack_entry* file_line = (file_line_stack_entry*) file_stack->pop(file_stack->instance);
                                     current_file_name = file_line->file;
                                     yylineno = file_line->line;
+                                    current_inclusion = file_line->inclusion;
 
                                     if (final_pass) generate_list_node(NULL);
                                 }
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index a47367b..2b8cf40 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -102,6 +102,7 @@ void reset_lex(void)
 void parse_pass(void)
 {
     reset_lex();
+    inclusion_count = 0;
 
     // loop through each input line_content
     for (int in_file_index = 0; in_file_index < input_file_count; in_file_index++)
@@ -110,6 +111,7 @@ void parse_pass(void)
         yylineno = 0;
 
         current_file_name = input_files[in_file_index];
+        current_inclusion = ++inclusion_count;
         yyin = open_file(current_file_name, "r");
         if (yyin == nullptr)
         {
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 85d56c3..daa8467 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -59,6 +59,7 @@ int compare_plus_minus_sym(const plus_minus_sym* a, const plus_minus_sym* b)
 {
     const int result = stricmp(a->file, b->file);
     if (result != 0) return result;
+    if (a->inclusion != b->inclusion) return a->inclusion - b->inclusion;
     return a->line - b->line;
 }
 
@@ -67,9 +68,14 @@ int plus_minus_sym_cmp_function(const void* a, const void* b)
     return compare_plus_minus_sym((plus_minus_sym*)a, (plus_minus_sym*)b);
 }
 
+static bool is_same_inclusion(const plus_minus_sym* a, const char* file)
+{
+    return a->inclusion == current_inclusion && stricmp(file, a->file) == 0;
+}
+
 int compare_plus_minus_sym_value(const plus_minus_sym* a, const char* file, const int line)
 {
-    const plus_minus_sym b = { file, line, 0 };
+    const plus_minus_sym b = { file, line, 0, current_inclusion };
     return compare_plus_minus_sym(a, &b);
 }
 
@@ -359,7 +365,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
         if (minus_symbol_table[index].file == NULL)
             continue;
 
-        if (stricmp(file, minus_symbol_table[index].file) != 0)
+        if (!is_same_inclusion(&minus_symbol_table[index], file))
             continue;
 
         if (minus_symbol_table[index].line <= line)
@@ -371,7 +377,7 @@ int find_minus_symbol(const int depth, const char* file, const int line)
     {
         found_index = found_index + 1 - depth;
         if (found_index >= 0 && found_index < minus_symbol_table_index &&
-            stricmp(file, minus_symbol_table[found_index].file) == 0)
+            is_same_inclusion(&minus_symbol_table[found_index], file))
             return found_index;
     }
     return -1;
@@ -383,7 +389,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     int found_index = -1;
     for (int index = 0; index < plus_symbol_table_index; ++index)
     {
-        if (stricmp(file, plus_symbol_table[index].file) != 0)
+        if (!is_same_inclusion(&plus_symbol_table[index], file))
             continue;
 
         if (plus_symbol_table[index].line > line)
@@ -396,7 +402,7 @@ int find_plus_symbol(const int depth, const char* file, const int line)
     {
         found_index = found_index -1 + depth;
         if (found_index >= 0 && found_index < plus_symbol_table_index &&
-            stricmp(file, plus_symbol_table[found_index].file) == 0)
+            is_same_inclusion(&plus_symbol_table[found_index], file))
             return found_index;
     }
     return -1;
@@ -430,6 +436,7 @@ void add_minus_symbol(const char* file, const int line, const int value)
     minus_symbol_table[minus_symbol_table_index].file = (char*)STRDUP(file);
     minus_symbol_table[minus_symbol_table_index].line = line;
     minus_symbol_table[minus_symbol_table_index].value = value;
+    minus_symbol_table[minus_symbol_table_index].inclusion = current_inclusion;
     ++minus_symbol_table_index;
 
     qsort(minus_symbol_table, minus_symbol_table_index, sizeof(plus_minus_sym), plus_minus_sym_cmp_function);
@@ -458,6 +465,7 @@ void add_plus_symbol(const char* file, const int line, const int value)
     plus_symbol_table[plus_symbol_table_index].file = (char*)STRDUP(file);
     plus_symbol_table[plus_symbol_table_index].line = line;
     plus_symbol_table[plus_symbol_table_index].value = value;
+    plus_symbol_table[plus_symbol_table_index].inclusion = current_inclusion;
     ++plus_symbol_table_index;
 
     qsort(plus_symbol_table, plus_symbol_table_index, sizeof(plus_minus_sym), plus_minus_sym_cmp_function);
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 4ee63fa..c86e591 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -10,6 +10,7 @@ typedef struct plus_minus_sym
     const char* file;
     int line;
     int value;
+    int inclusion;      // a file may be included several times
 } plus_minus_symbol;
 
 typedef struct symbol_table
-- 
2.43.0


From e3cea08fd5ea5d3963d32be4cf5aa2b6d27522ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 47/81] fix: an anonymous reference does not change the region
 of local labels

---
 CMakePasm/source/sym.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index daa8467..5a49e57 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -81,11 +81,6 @@ int compare_plus_minus_sym_value(const plus_minus_sym* a, const char* file, cons
 
 symbol_table_ptr add_plus_minus_sym(char* name)
 {
-    const auto blank = "";
-
-    if (last_label == nullptr)
-        last_label = const_cast<char*>(&blank[0]);
-
     symbol_table sym = { 0 };  // NOLINT(clang-diagnostic-missing-field-initializers)
     char* temp_section = current_scope;
 
@@ -621,7 +616,7 @@ char* format_local_plus_minus_sym(char* name, char* label)
 
     sprintf(number_buffer, "%d", yylineno);
 
-    const int new_len = strlen(last_label) + 1 + strlen(name) + 1 + strlen(number_buffer) + 1 + 2 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
+    const int new_len = strlen(label) + 1 + strlen(name) + 1 + strlen(number_buffer) + 1 + 2 + 2;  // NOLINT(bugprone-narrowing-conversions, cppcoreguidelines-narrowing-conversions)
 
     char* new_name = static_cast<char*>(MALLOC(new_len));
     if (new_name)
-- 
2.43.0


From 60c75bdca7ebcaa76f589416c9669a03eebd6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 48/81] fix: symbols of a section are kept apart from global
 ones of the same name

---
 CMakePasm/source/expand.cc | 46 ++++++++++++++++++++++++++------------
 CMakePasm/source/sym.cc    | 11 ++++++---
 CMakePasm/source/sym.h     |  1 +
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index da0f172..08e9a0b 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1202,6 +1202,23 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                         error(error_adding_symbol);
                         break;
                     }
+
+                    // a variable of a section is not the symbol of that name outside
+                    if (current_scope && !symbol_ptr->scope)
+                    {
+                        const size_t len = strlen(symbol_ptr->name) + strlen(current_scope) + 2;
+                        char* temp = static_cast<char*>(MALLOC(len));
+                        if (temp == nullptr)
+                        {
+                            error(error_out_of_memory);
+                            exit(-1);
+                        }
+
+                        sprintf(temp, "%s.%s", current_scope, symbol_ptr->name);
+                        symbol_ptr = add_symbol(temp);
+                        pp->id.i = symbol_ptr;
+                        FREE(temp);
+                    }
                     symbol_ptr->is_var = true;
                 }
                 symbol_ptr->value = pp->type == type_label ? program_counter : 0;
@@ -1789,23 +1806,24 @@ int expand_operator_equ_node(const parse_node_ptr p)
         exit(-1);
     }
 
-    if (!sym->is_initialized || sym->value != op)
+    // a variable keeps its name when it is assigned in a section
+    if (!sym->scope && current_scope && (!sym->is_var || p->op[0]->type == type_label))
     {
-        // a variable keeps its name when it is assigned in a section
-        if (!sym->scope && current_scope && !sym->is_var)
+        const int len = strlen(sym->name) + strlen(current_scope) + 2;
+        char* temp = static_cast<char*>(MALLOC(len));
+        if (temp == nullptr)
         {
-            const int len = strlen(sym->name) + strlen(current_scope) + 2;
-            char* temp = static_cast<char*>(MALLOC(len));
-            if (temp == nullptr)
-            {
-                error(error_out_of_memory);
-                exit(-1);
-            }
-
-            sprintf(temp, "%s.%s", current_scope, sym->name);
-            sym = add_symbol(temp);
-            FREE(temp);
+            error(error_out_of_memory);
+            exit(-1);
         }
+
+        sprintf(temp, "%s.%s", current_scope, sym->name);
+        sym = add_symbol(temp);
+        FREE(temp);
+    }
+
+    if (!sym->is_initialized || sym->value != op)
+    {
         set_symbol_value(sym, op);
         sym->is_initialized = true;
         if (p->op[0]->type == type_label)
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 5a49e57..eaf6da3 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -146,8 +146,10 @@ symbol_table_ptr add_symbol(char* name)
         }
     }
 
+    const bool is_qualified = strstr(name, ".") != NULL;
+
     // macro parameters do not belong to a section
-    if (strstr(name, ".") || name[0] == '\\')
+    if (is_qualified || name[0] == '\\')
         current_scope = NULL;
 
     if (name[0] == '.')
@@ -169,6 +171,8 @@ symbol_table_ptr add_symbol(char* name)
     if (tmp_ptr != NULL)
     {
         current_scope = temp_section;
+        if (is_qualified)
+            tmp_ptr->is_qualified = true;
         return tmp_ptr;
     }
 
@@ -214,6 +218,7 @@ symbol_table_ptr add_symbol(char* name)
         sym.is_local = true;
     }
 
+    sym.is_qualified = is_qualified;
     current_scope = temp_section;
     tmp_ptr = static_cast<symbol_table_ptr>(dict_insert(&symbol_dictionary, sym.fullname, &sym));
     sanitize_symbol(tmp_ptr);
@@ -697,7 +702,7 @@ void dump_symbols(FILE* file)
         for (element_ptr element = symbol_dictionary->table[index]; element != 0; element = element->next)
         {
             const auto sym = static_cast<symbol_table_ptr>(element->value);
-            if (sym->is_var == false && sym->is_macro_param == false && 
+            if (sym->is_initialized && sym->is_var == false && sym->is_macro_param == false && 
                 sym->is_macro_name == false && sym->is_plus_minus == false && sym->is_local == false &&
                 pass * 2 <= sym->times_accessed && is_local_sym(sym->name) == false)
             {
@@ -832,7 +837,7 @@ int unresolved_symbol_count(void)
                 sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
             {
                 // referred to in a section before the symbol was defined outside
-                const auto global = sym->scope
+                const auto global = sym->scope && !sym->is_qualified
                     ? static_cast<symbol_table_ptr>(dict_search(symbol_dictionary, sym->name))
                     : NULL;
                 if (global == NULL || !global->is_initialized)
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index c86e591..8f7d2e1 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -24,6 +24,7 @@ typedef struct symbol_table
     bool is_local;
     bool is_plus_minus;
     bool is_var;
+    bool is_qualified;      // referred to with its section
     char* scope;
     char* name;
     char* fullname;
-- 
2.43.0


From 092b2558beca88f519a6a796247469e814bd4cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 49/81] fix: a directory of -dir need not end with a separator

---
 CMakePasm/source/file.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 48750f0..52fa9f2 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -28,6 +28,17 @@ enum
 
 static char path[path_max] = { 0 };
 
+/**
+ * \brief end the name of a directory with a separator
+ * \param directory name of directory
+ */
+static void add_separator(char* directory)
+{
+    const size_t len = strlen(directory);
+    if (len > 0 && directory[len - 1] != '/' && directory[len - 1] != '\\')
+        strcat(directory, "/");
+}
+
 void open_file_stream(std::ofstream& file, const char* filename, const std::ios::openmode mode)
 {
     file.open(filename, mode);
@@ -51,6 +62,7 @@ void open_file_stream(std::ofstream& file, const char* filename, const std::ios:
             error2(error_path_name_too_long, path);
             exit(-1);  // NOLINT(concurrency-mt-unsafe)
         }
+        add_separator(path);
         strcat(path, filename);
         file.open(path, mode);
         if (file.is_open())
@@ -97,6 +109,7 @@ FILE* open_file(const char* file, const char* mode)
             error2(error_path_name_too_long, path);
             exit(-1);  // NOLINT(concurrency-mt-unsafe)
         }
+        add_separator(path);
         strcat(path, file);
         fd = fopen(path, mode);
         if (fd != NULL)
-- 
2.43.0


From 61a16d8b82e1bc9788361f6175a6d82b01783202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:30 +0000
Subject: [PATCH 50/81] fix: the lines after .print on are listed

---
 CMakePasm/source/genlist.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 0e7f002..c1cc05b 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -116,11 +116,10 @@ void generate_list_file(FILE* list_file)
             fprintf(list_file, "; Processing %s\n", current_file_name);
         }
 
-        if (list_node->print_state != state)
-        {
-            state = list_node->print_state;
-            continue;
-        }
+        // the line of .print on is not listed, those after it are
+        const bool resumed = list_node->print_state != state;
+        state = list_node->print_state;
+
         if (list_node->list_directive)
         {
             continue;
@@ -145,7 +144,7 @@ void generate_list_file(FILE* list_file)
         internal_buffer[0] = 0;
         if (source_list->displayed == 0)
         {
-            if (state)
+            if (state && !resumed)
             {
                 sprintf(internal_buffer, source_indent_format, list_node->output, source_list->line_content);
             }
@@ -153,7 +152,7 @@ void generate_list_file(FILE* list_file)
         }
         else
         {
-            if (state)
+            if (state && !resumed)
             {
                 sprintf(internal_buffer, source_indent_format, list_node->output, "\n");
             }
-- 
2.43.0


From e2e868e0c49e00e38b3c8619c0623689e92f8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:46 +0000
Subject: [PATCH 51/81] fix: labels of the same name in different sections have
 their own local labels

---
 CMakePasm/source/node.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index ef5092c..89437e7 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -193,7 +193,22 @@ parse_node_ptr id_node(const char* name)
 parse_node_ptr label_node(char* name)
 {
     if (name[0] != '@' && name[0] != '-' && name[0] != '+')
+    {
         last_label = name;
+        if (current_scope != nullptr)
+        {
+            // labels of the same name in different sections have local labels of their own
+            last_label = static_cast<char*>(MALLOC(strlen(current_scope) + strlen(name) + 3));
+            if (last_label == nullptr)
+            {
+                error(error_out_of_memory);
+                exit(-1);  // NOLINT(concurrency-mt-unsafe)
+            }
+            sprintf(last_label, "%s::%s", current_scope, name);
+            for (char* c = last_label; c < last_label + strlen(current_scope); c++)
+                if (*c == '.') *c = ':';
+        }
+    }
     else if (last_label != nullptr && name[0] == '@' && in_macro_definition == 0)
     {
         return id_node_common(format_local_sym(name, last_label), type_label);
-- 
2.43.0


From 99d28b7a6474f451c9d353b786af85d1cd992c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:46 +0000
Subject: [PATCH 52/81] fix: a listing file that cannot be written is a failure

---
 CMakePasm/source/pass.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 2b8cf40..00180ef 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -304,6 +304,7 @@ int assemble(void)
         if (list_file == nullptr)
         {
             error(error_opening_list_file);
+            return -1;
         }
         else
         {
-- 
2.43.0


From 1296cffd7857dea9d7a7fba51b479eb1a57b3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:23 +0000
Subject: [PATCH 53/81] fix: a number prefix without digits is an error

---
 CMakePasm/source/pasm.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 0e552f9..d54e1c2 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -366,11 +366,11 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 [\'][\\].[\']               { SV_TOK INT_1BYTE }
 [\"].[\"]                   { SV_TOK INT_1BYTE }
 [\"][\\].[\'"]              { SV_TOK INT_1BYTE }
-$[0-9A-Fa-f]*               { SV_TOK INT(1, 16)}
+$[0-9A-Fa-f]+               { SV_TOK INT(1, 16)}
 [\'][\\]x[0-9A-Fa-f]+[\']   { SV_TOK INT(3, 16)}
 [0-9]*                      { SV_TOK INT(0, 10)}
-%[0-1]*                     { SV_TOK INT(1, 2) }
-0b[0-1]*                    { SV_TOK INT(2, 2) }
+%[0-1]+                     { SV_TOK INT(1, 2) }
+0b[0-1]+                    { SV_TOK INT(2, 2) }
 [\'][\\][0-7]{3}[\']        { SV_TOK INT(2, 8) }
 
 {STRVALUE}                  { P_TOK("STRING_LITERAL") SV_TOK yylval.strValue = (char*)STRDUP(yytext); return STRING_LITERAL; }
-- 
2.43.0


From fb5bf3f3a0b24932f11a855efd15a71c391ee432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:23 +0000
Subject: [PATCH 54/81] fix: an integer literal of more than 32 bits is an
 error

---
 CMakePasm/source/pasm.l | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index d54e1c2..c6fd4dc 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -6,6 +6,7 @@
 
 #include <stdbool.h>
 
+#include "error.h"
 #include "flex.h"
 #include "pasm.h"
 #include "str.h"
@@ -36,7 +37,9 @@ extern bool Debug_AddList;
 #define OP_65C02_REL(op)    { OP_REL(op); }
 #define INT(off, base)      { \
                                 P_TOK("INTEGER") \
-                                yylval.iValue = (int) strtol (yytext + off, NULL, base);\
+                                const long long int_value = strtoll(yytext + off, NULL, base);\
+                                if (int_value > 0xFFFFFFFFLL) error(error_value_out_of_range);\
+                                yylval.iValue = (int) int_value;\
                                 return INTEGER;\
                             }
 #define INT_1BYTE           {\
-- 
2.43.0


From e9c2206f696d754c6f313e0b8f6da6a73b1abc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:21 +0000
Subject: [PATCH 55/81] fix: .print on and .print off may have several blanks
 in between

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index c6fd4dc..400f3ca 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -324,8 +324,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".WARN"[ \t]*"ON"           {                       SV_TOK ignore_warnings = false;                 }
 ".WARN"[ \t]*"OFF"          {                       SV_TOK ignore_warnings = true;                  }
 ".C64"                      {                       SV_TOK output_file_format = c64;                }
-".PRINT"[ \t]"ON"           {                       P_TOK("PRINTON") SV_TOK return PRINTON;         }
-".PRINT"[ \t]"OFF"          {                       P_TOK("PRINTOFF") SV_TOK return PRINTOFF;       }
+".PRINT"[ \t]+"ON"          {                       P_TOK("PRINTON") SV_TOK return PRINTON;         }
+".PRINT"[ \t]+"OFF"         {                       P_TOK("PRINTOFF") SV_TOK return PRINTOFF;       }
 
 ".DEBUG_TOKEN"[ \t]"ON"     { P_TOK("DEBUGTOKEN ON")       SV_TOK Debug_Token = true;               }
 ".DEBUG_TOKEN"[ \t]"OFF"    { P_TOK("DEBUGTOKEN OFF")      SV_TOK Debug_Token = false;              }
-- 
2.43.0


From a5bafd5f71e325d85659299a7f5c28587c8f5c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:25 +0000
Subject: [PATCH 56/81] fix: .print of a symbol whose name starts with on or
 off

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 400f3ca..78daeb1 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -324,8 +324,8 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 ".WARN"[ \t]*"ON"           {                       SV_TOK ignore_warnings = false;                 }
 ".WARN"[ \t]*"OFF"          {                       SV_TOK ignore_warnings = true;                  }
 ".C64"                      {                       SV_TOK output_file_format = c64;                }
-".PRINT"[ \t]+"ON"          {                       P_TOK("PRINTON") SV_TOK return PRINTON;         }
-".PRINT"[ \t]+"OFF"         {                       P_TOK("PRINTOFF") SV_TOK return PRINTOFF;       }
+".PRINT"[ \t]+"ON"/[^A-Za-z0-9_.] {                       P_TOK("PRINTON") SV_TOK return PRINTON;         }
+".PRINT"[ \t]+"OFF"/[^A-Za-z0-9_.] {                       P_TOK("PRINTOFF") SV_TOK return PRINTOFF;       }
 
 ".DEBUG_TOKEN"[ \t]"ON"     { P_TOK("DEBUGTOKEN ON")       SV_TOK Debug_Token = true;               }
 ".DEBUG_TOKEN"[ \t]"OFF"    { P_TOK("DEBUGTOKEN OFF")      SV_TOK Debug_Token = false;              }
-- 
2.43.0


From b9d43c4c68578d1267ac43b48df39d5c1b9c3605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:28 +0000
Subject: [PATCH 57/81] fix: a comment before a label or macro name does not
 change its meaning

---
 CMakePasm/source/pasm.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 78daeb1..9d35775 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -424,8 +424,8 @@ $[0-9A-Fa-f]+               { SV_TOK INT(1, 16)}
                                 P_TOK("SYMBOL")
                                 return SYMBOL;
                             }
-"/*"                        { SV_TOK BEGIN(C_COMMENT); }
-<C_COMMENT>"*/"             { SV_TOK BEGIN(INITIAL); }
+"/*"                        { BEGIN(C_COMMENT); }
+<C_COMMENT>"*/"             { BEGIN(INITIAL); }
 <C_COMMENT>.|[\n]           { /* ignore comments */ }
 ;[^\n]*                     { /* ignore comments */ }
 [/][/][^\n]*                { /* ignore comments */ }
-- 
2.43.0


From 60ec5cc9b69a10062789d608c8950e37e08b75e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:24 +0000
Subject: [PATCH 58/81] fix: the first definition of a symbol needs another
 pass whatever its value

---
 CMakePasm/source/expand.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 08e9a0b..0760ae0 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1764,7 +1764,11 @@ int expand_operator_equ_node(const parse_node_ptr p)
     if (stricmp(p->op[0]->id.name, "-") == 0)
     {
         int index = find_minus_symbol_definition(current_file_name, yylineno);
-        if (index < 0) add_minus_symbol(current_file_name, yylineno, op);
+        if (index < 0)
+        {
+            add_minus_symbol(current_file_name, yylineno, op);
+            sym_value_changed++;
+        }
 
         index = find_minus_symbol(strlen(p->op[0]->id.name), current_file_name, yylineno);
 
@@ -1782,7 +1786,11 @@ int expand_operator_equ_node(const parse_node_ptr p)
     if (stricmp(p->op[0]->id.name, "+") == 0)
     {
         int index = find_plus_symbol_definition(current_file_name, yylineno);
-        if (index < 0) add_plus_symbol(current_file_name, yylineno, op);
+        if (index < 0)
+        {
+            add_plus_symbol(current_file_name, yylineno, op);
+            sym_value_changed++;
+        }
 
         index = find_plus_symbol(strlen(p->op[0]->id.name), current_file_name, yylineno - 1);
 
@@ -1824,6 +1832,9 @@ int expand_operator_equ_node(const parse_node_ptr p)
 
     if (!sym->is_initialized || sym->value != op)
     {
+        // what referred to the symbol before its definition did not know its value, even if it is zero
+        if (!sym->is_initialized && !sym->is_var && sym->value == op)
+            sym_value_changed++;
         set_symbol_value(sym, op);
         sym->is_initialized = true;
         if (p->op[0]->type == type_label)
-- 
2.43.0


From 3c18bbf60d663c7896c64a9dc53cefb302f6524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 59/81] fix: an anonymous label may be the first in a file or
 follow an included one

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 9d35775..5066bfd 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -345,7 +345,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
                                 return SYMBOL;
                             }
 [\+|\-]+                    {
-                                if (last_token != nullptr && *last_token == '\n')
+                                if (last_token == nullptr || *last_token == '\n')
                                 {
                                     SV_TOK
                                     P_TOK("LABEL")
-- 
2.43.0


From 3894756b12d18baac86a05b15286d0291ab3c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:40 +0000
Subject: [PATCH 60/81] fix: CR LF is one line end

---
 CMakePasm/source/pasm.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 5066bfd..9673740 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -157,7 +157,7 @@ SYMB                        @?[A-Za-z_][A-Za-z0-9_.]*
 "RMB"[0-7]                  { OP_65C02_REL(rmb) }
 "SMB"[0-7]                  { OP_65C02_REL(smb) }
 
-[\xD\xA]|[\xA]|[\xD]        { P_TOK("EOL") SV_TOK return EOL; }
+\xD\xA|\xA|\xD              { P_TOK("EOL") SV_TOK *last_token = '\n'; return EOL; }
 ".IFDEF"[ \t]+{SYMB}        {
                                 P_TOK("IF_DEF")
                                 SV_TOK
-- 
2.43.0


From 062d11478e0929f2b38ac43afc83afd9704f7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:24 +0000
Subject: [PATCH 61/81] fix: the names in a macro are those of the section it
 is called in

---
 CMakePasm/source/expand.cc | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 0760ae0..4feff82 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -485,6 +485,15 @@ int expand_operator_variable_node(const parse_node_ptr p)
     return 0;
 }
 
+// number of macro calls being expanded
+static int macro_depth = 0;
+
+// the names in a macro are those of the section it is called in, so each call looks them up
+static bool is_symbol_known(const parse_node_ptr p)
+{
+    return p->id.i != nullptr && (macro_depth == 0 || p->id.name[0] == '\\');
+}
+
 int expand_plus_minus_node(const parse_node_ptr p)
 {
     if (!is_plus_minus_symbol_name_valid(p->id.name))
@@ -526,17 +535,17 @@ int expand_id_node(const parse_node_ptr p)
     if (p->id.name[0] == '-' || p->id.name[0] == '+')
         return expand_plus_minus_node(p);
 
+    // the symbols of a macro belong to its calls, not to its definition
+    if (in_macro_definition > 0 && p->id.name[0] != '\\')
+        return 0;
+
     symbol_table_ptr sym = p->id.i;
     if (p->id.name[0] == '@')
     {
-        // the local labels of a macro belong to its calls, not to its definition
-        if (in_macro_definition > 0)
-            return 0;
-
         sym = add_symbol(p->id.name);
         p->id.i = sym;
     }
-    if (sym == nullptr)
+    else if (!is_symbol_known(p))
     {
         sym = add_symbol(p->id.name);
         p->id.i = sym;
@@ -558,7 +567,7 @@ int expand_label_node(const parse_node_ptr p)
         return expand_plus_minus_node(p);
 
     symbol_table_ptr symbol_ptr = p->id.i;
-    if (symbol_ptr == nullptr)
+    if (!is_symbol_known(p))
     {
         p->id.i = add_symbol(p->id.name);
         symbol_ptr = p->id.i;
@@ -1193,7 +1202,7 @@ int expand_operator_expression_list_node(const parse_node_ptr p)
                     break;
                 }
                 symbol_ptr = pp->id.i;
-                if (symbol_ptr == nullptr)
+                if (!is_symbol_known(pp))
                 {
                     pp->id.i = add_symbol(pp->id.name);
                     symbol_ptr = pp->id.i;
@@ -1483,8 +1492,10 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
     last_label = (char*) STRDUP(internal_buffer);
 
+    macro_depth++;
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
+    macro_depth--;
 
     macro_dict_entry->times_executed++;
 
@@ -1596,7 +1607,7 @@ int expand_operator_for_node(const parse_node_ptr p)
     const parse_node_ptr pp = p->op[0];
     if (pp->op[0]->type == type_id)
     {
-        if (pp->op[0]->id.i == nullptr)
+        if (!is_symbol_known(pp->op[0]))
             pp->op[0]->id.i = add_symbol(pp->op[0]->id.name);
         start_sym = pp->op[0]->id.i;
         if (start_sym == nullptr)
@@ -1607,7 +1618,7 @@ int expand_operator_for_node(const parse_node_ptr p)
     }
 
     expand_node(p->op[0]);
-    if (p->op[3]->id.i == nullptr)
+    if (!is_symbol_known(p->op[3]))
         p->op[3]->id.i = add_symbol(p->op[3]->id.name);
 
     const symbol_table_ptr sym = p->op[3]->id.i;
@@ -1805,7 +1816,7 @@ int expand_operator_equ_node(const parse_node_ptr p)
         return op;
     }
 
-    if (p->op[0]->id.i == nullptr || p->op[0]->id.name[0] == '@')
+    if (!is_symbol_known(p->op[0]) || p->op[0]->id.name[0] == '@')
         p->op[0]->id.i = add_symbol(p->op[0]->id.name);
     symbol_table_ptr sym = p->op[0]->id.i;
     if (sym == nullptr)
@@ -2103,8 +2114,8 @@ int is_uninitialized_symbol(const parse_node_ptr p)
 {
     if (p->type == type_label || p->type == type_id)
     {
-        // a local label belongs to the macro call being expanded
-        if (p->type == type_id && p->id.name[0] == '@')
+        // a local label or a name in a macro belongs to the macro call being expanded
+        if (p->type == type_id && (p->id.name[0] == '@' || !is_symbol_known(p)))
             expand_id_node(p);
         if (p->id.i == nullptr)
             return true;
-- 
2.43.0


From dd42b689452dda17bb9c9d037485c41a6e888837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:07 +0000
Subject: [PATCH 62/81] fix: the tables of the expander hold what is stored in
 them

---
 CMakePasm/source/expand.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 4feff82..436d37f 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1402,7 +1402,7 @@ macro_dict_entry* create_macro_entry(const char* name)
 {
     // ReSharper disable once CppTooWideScope
     if (macro_dict == nullptr)
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(macro_dict_entry), 0);
 
     auto* macro_dict_entry = static_cast<struct macro_dict_entry*>(dict_search(macro_dict, name));
     if (macro_dict_entry == nullptr)
@@ -1428,7 +1428,7 @@ void reset_macro_dict(void)
 
     if (macro_dict == nullptr)
     {
-        macro_dict = dict_create(sizeof(macro_dict_entry*), 0);
+        macro_dict = dict_create(sizeof(macro_dict_entry), 0);
     }
     for (int index = 0; index < macro_dict->size; index++)
     {
@@ -2144,7 +2144,7 @@ bool has_uninitialized_symbol(const parse_node_ptr p)
 
 static dictionary_ptr create_op_table_dictionary(op_table table[], const size_t size)
 {
-    dictionary_ptr dictionary = dict_create(sizeof(op_table), -1);
+    dictionary_ptr dictionary = dict_create(sizeof(table[0].function), -1);
     for (size_t i = 0; i < size; ++i)
     {
         dict_insert(&dictionary, (void*)static_cast<size_t>(table[i].tag), &table[i].function);
-- 
2.43.0


From 306b4df835e6028e102bc5f3381d2316caf7bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:22 +0000
Subject: [PATCH 63/81] fix: a symbol defined on the command line has a name

---
 CMakePasm/source/parseargs.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CMakePasm/source/parseargs.cc b/CMakePasm/source/parseargs.cc
index 0b15298..2354aad 100644
--- a/CMakePasm/source/parseargs.cc
+++ b/CMakePasm/source/parseargs.cc
@@ -291,6 +291,12 @@ int parse_arguments(const int argc, char* argv[])
                 exit(-1);
             }
             char* sym_name = argv[arg_index];
+            if (*sym_name == 0)
+            {
+                error(error_invalid_parameters);
+                usage();
+                exit(-1);
+            }
 
             arg_index++;
             if (arg_index >= argc)
-- 
2.43.0


From 9a9a92029b3e924bdee6b2dedae42a2fa66aeeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:10 +0000
Subject: [PATCH 64/81] fix: a source line longer than the line buffer is
 listed whole

---
 CMakePasm/source/file.cc    | 16 ++++++++++++++++
 CMakePasm/source/genlist.cc | 14 ++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/CMakePasm/source/file.cc b/CMakePasm/source/file.cc
index 52fa9f2..b7c1514 100644
--- a/CMakePasm/source/file.cc
+++ b/CMakePasm/source/file.cc
@@ -147,6 +147,22 @@ file_line_node* read_file_lines(const char* file_name)
         internal_buffer[0] = 0;
         if (fgets(internal_buffer, max_line_len, file))
         {
+            if (file_node != NULL && strchr(file_node->line_content, '\n') == NULL)
+            {
+                // the rest of a line longer than the buffer
+                // ReSharper disable once CppCStyleCast
+                char* line_content = (char*)MALLOC(strlen(file_node->line_content) + strlen(internal_buffer) + 1);
+                if (line_content == NULL)
+                {
+                    error(error_out_of_memory);
+                    return NULL;
+                }
+                strcpy(line_content, file_node->line_content);
+                strcat(line_content, internal_buffer);
+                FREE(file_node->line_content);
+                file_node->line_content = line_content;
+                continue;
+            }
             if (file_node == NULL)
             {
                 // ReSharper disable once CppCStyleCast
diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index c1cc05b..7afda5b 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -88,7 +88,6 @@ void generate_list_file(FILE* list_file)
     fprintf(list_file, "; Processing %s\n", current_file_name);
     for (int line = 1; line < list_head->line; ++line)
     {
-        internal_buffer[0] = 0;
         file_line_node* source_list = get_file_line(list_node->filename, line);
 
         if (list_node->list_directive)
@@ -98,8 +97,7 @@ void generate_list_file(FILE* list_file)
         {
             if (state)
             {
-                sprintf(internal_buffer, source_indent_format, "", source_list->line_content);
-                fputs(internal_buffer, list_file);
+                fprintf(list_file, source_indent_format, "", source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -141,12 +139,11 @@ void generate_list_file(FILE* list_file)
         if (source_list == nullptr)
             continue;
 
-        internal_buffer[0] = 0;
         if (source_list->displayed == 0)
         {
             if (state && !resumed)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, source_list->line_content);
+                fprintf(list_file, source_indent_format, list_node->output, source_list->line_content);
             }
             source_list->displayed++;
         }
@@ -154,16 +151,13 @@ void generate_list_file(FILE* list_file)
         {
             if (state && !resumed)
             {
-                sprintf(internal_buffer, source_indent_format, list_node->output, "\n");
+                fprintf(list_file, source_indent_format, list_node->output, "\n");
             }
         }
-        fputs(internal_buffer, list_file);
 
         for (source_list = source_list->next; source_list && source_list->line_number <= end_line; source_list = source_list->next)
         {
-            internal_buffer[0] = 0;
-            sprintf(internal_buffer, source_indent_format, "","");
-            fputs(internal_buffer, list_file);
+            fprintf(list_file, source_indent_format, "", "");
             if (source_list->displayed == 0)
             {
                 if (state)
-- 
2.43.0


From 65401cb835c3b80f525bc3fd84cb7f15ec843931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:10 +0000
Subject: [PATCH 65/81] fix: a message longer than the line buffer is cut off

---
 CMakePasm/source/error.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 5e766c9..160e590 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -101,14 +101,7 @@ void error2(const int err_num, const char* parameter)
 {
     assert(err_num > error_start && err_num < error_max);
     assert(internal_buffer != NULL);
-    if (strlen(errors[err_num]) + strlen(parameter) + 2 < max_line_len)
-    {
-        sprintf(internal_buffer, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
-    }
-    else
-    {
-        error(err_num);
-    }
+    snprintf(internal_buffer, max_line_len, "%s %s", errors[err_num], parameter);  // NOLINT(cert-err33-c)
     yyerror(internal_buffer);
 }
 
-- 
2.43.0


From 3a70d4e7d5fa6111dfad2a7af29de1c27aa42743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:36 +0000
Subject: [PATCH 66/81] fix: the name of a symbol may be empty after its dot

---
 CMakePasm/source/sym.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index eaf6da3..83b5d31 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -164,7 +164,7 @@ symbol_table_ptr add_symbol(char* name)
     }
 
     size_t len = strlen(name);
-    if (name[len - 1] == ':')
+    if (len > 0 && name[len - 1] == ':')
         name[len - 1] = 0;
 
     symbol_table_ptr tmp_ptr = look_up_symbol(name);
-- 
2.43.0


From 1204e4ebeb92823b111450d622a4fb81e0fc334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:46 +0000
Subject: [PATCH 67/81] fix: a macro used before its definition is an error

---
 CMakePasm/source/error.cc  |  1 +
 CMakePasm/source/error.h   |  1 +
 CMakePasm/source/expand.cc | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/CMakePasm/source/error.cc b/CMakePasm/source/error.cc
index 160e590..ab28e98 100644
--- a/CMakePasm/source/error.cc
+++ b/CMakePasm/source/error.cc
@@ -67,6 +67,7 @@ const char* errors[] =
     "Error opening output file.",
     "Error creating list node.",
     "Error path name too long.",
+    "Macro used before its definition.",
 };
 
 /**
diff --git a/CMakePasm/source/error.h b/CMakePasm/source/error.h
index b0c92f0..4561558 100644
--- a/CMakePasm/source/error.h
+++ b/CMakePasm/source/error.h
@@ -59,5 +59,6 @@ enum
     error_opening_output_file,
     error_creating_list_node,
     error_path_name_too_long,
+    error_macro_used_before_definition,
     error_max
 };
diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 436d37f..5c27833 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1438,6 +1438,17 @@ void reset_macro_dict(void)
             entry->times_executed = 0;
         }
     }
+
+    // the bodies of the macros belong to the parse tree of the last pass
+    if (symbol_dictionary == nullptr)
+        return;
+    for (int index = 0; index < symbol_dictionary->size; index++)
+    {
+        for (element_ptr element = symbol_dictionary->table[index]; element != nullptr; element = element->next)
+        {
+            static_cast<symbol_table_ptr>(element->value)->macro_node = nullptr;
+        }
+    }
 }
 
 /// <summary>
@@ -1458,6 +1469,7 @@ int expand_macro_id_node(const parse_node_ptr p)
     const symbol_table_ptr sym = p->id.i;
     if (!sym || !sym->macro_node)
     {
+        error2(error_macro_used_before_definition, p->id.name);
         last_label = temp;
         return 0;
     }
-- 
2.43.0


From 8962142fb9dd95a117abe32352ccc87a15e69dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:46 +0000
Subject: [PATCH 68/81] fix: the name of a macro may be longer than the line
 buffer

---
 CMakePasm/source/expand.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 5c27833..5c58e58 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1451,6 +1451,22 @@ void reset_macro_dict(void)
     }
 }
 
+/// <summary>
+/// Create the label of a macro call
+/// </summary>
+static char* create_macro_label(const char* format, const char* name, const int times_executed)
+{
+    const size_t size = strlen(name) + 16;
+    auto* label = static_cast<char*>(MALLOC(size));
+    if (label == nullptr)
+    {
+        error(error_out_of_memory);
+        exit(-1);
+    }
+    snprintf(label, size, format, name, times_executed);
+    return label;
+}
+
 /// <summary>
 /// Operator Macro Symbol
 /// </summary>
@@ -1461,8 +1477,7 @@ int expand_macro_id_node(const parse_node_ptr p)
     const macro_dict_entry* macro_dict_entry = create_macro_entry(p->id.name);
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
-    last_label = const_cast<char*>(STRDUP(internal_buffer));
+    last_label = create_macro_label("%s::%8.8X", p->id.name, macro_dict_entry->times_executed);
 
     expand_id_node(p);
 
@@ -1501,8 +1516,7 @@ int expand_macro_expansion_node(const parse_node_ptr p)
         set_symbol_value(argument.first, argument.second);
 
     char* temp = last_label;
-    sprintf(internal_buffer, "%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
-    last_label = (char*) STRDUP(internal_buffer);
+    last_label = create_macro_label("%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
 
     macro_depth++;
     if (p->macro.macro != nullptr)
-- 
2.43.0


From 6146fafb92d17ef7b69abef050ffb06b2c181975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:19 +0000
Subject: [PATCH 69/81] fix: .end inside a repeat loop ends the loop

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 5c58e58..8f1bfcd 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1594,7 +1594,7 @@ int expand_operator_repeat_node(const parse_node_ptr p)
             error(error_infinite_loop_detected);
             return 0;
         }
-    } while (expand_node(p->op[1]) == 0);
+    } while (!end_expansion && expand_node(p->op[1]) == 0);
     return 0;
 }
 
-- 
2.43.0


From 7a441768d8165964681480412d2d4894fdedadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:19 +0000
Subject: [PATCH 70/81] fix: a macro that calls itself without end is an error

---
 CMakePasm/source/expand.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 8f1bfcd..6d11b58 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -488,6 +488,9 @@ int expand_operator_variable_node(const parse_node_ptr p)
 // number of macro calls being expanded
 static int macro_depth = 0;
 
+// macros that call each other without end
+constexpr int max_macro_depth = 255;
+
 // the names in a macro are those of the section it is called in, so each call looks them up
 static bool is_symbol_known(const parse_node_ptr p)
 {
@@ -1518,7 +1521,11 @@ int expand_macro_expansion_node(const parse_node_ptr p)
     char* temp = last_label;
     last_label = create_macro_label("%s::%.4X", p->macro.name, macro_dict_entry->times_executed);
 
-    macro_depth++;
+    if (++macro_depth > max_macro_depth)
+    {
+        error2(error_infinite_loop_detected, p->macro.name);
+        exit(-1);
+    }
     if (p->macro.macro != nullptr)
         expand_node(static_cast<parse_node_ptr>(p->macro.macro));
     macro_depth--;
-- 
2.43.0


From 7bc56a8fe919e3c67c522c53d5db700c88fcf98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:41 +0000
Subject: [PATCH 71/81] fix: a block may hold any number of statements

---
 CMakePasm/source/expand.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 6d11b58..5688cde 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -1778,9 +1778,22 @@ int expand_operator_statement_node(const parse_node_ptr p)
     if (p->number_of_ops < 1)
         return 0;
 
-    for (int index = 0; index < p->number_of_ops; index++)
+    // a list of statements holds the list of those before its last one, it may be very deep
+    std::vector<parse_node_ptr> statements;
+    parse_node_ptr list = p;
+    while (list->number_of_ops == 2 && list->op[0] != nullptr && list->op[0]->type == type_opr && list->op[0]->opr.opr == STATEMENT)
     {
-        expand_node(p->op[index]);
+        statements.push_back(list->op[1]);
+        list = list->op[0];
+    }
+
+    for (int index = 0; index < list->number_of_ops; index++)
+    {
+        expand_node(list->op[index]);
+    }
+    for (auto statement = statements.rbegin(); statement != statements.rend(); ++statement)
+    {
+        expand_node(*statement);
     }
     return 0;
 }
-- 
2.43.0


From ccd714c37c6a3824ddd2946b0c7de66ce7587099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:32 +0000
Subject: [PATCH 72/81] fix: the root directory of the samples is not read from
 freed memory

---
 CMakePasm/eolconvert/eolconvert.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/eolconvert/eolconvert.cc b/CMakePasm/eolconvert/eolconvert.cc
index 39b7408..760eeee 100644
--- a/CMakePasm/eolconvert/eolconvert.cc
+++ b/CMakePasm/eolconvert/eolconvert.cc
@@ -23,7 +23,7 @@ int process_directories(const set<fs::path>& directories, const fs::path& source
 int process_directory(const fs::path& directory, const fs::path& source_root, const fs::path& install_path);
 int process_files(const set<fs::path>& files, const fs::path& source_root, const fs::path& install_path);
 int process_file(const fs::path& path, const fs::path& source_root, const fs::path& install_path);
-char* extract_directory(int n, string path);
+string extract_directory(int n, string path);
 
 bool is_eol(uint8_t ch);
 int replace_eol(const fs::path& path, const fs::path& out_path);
@@ -84,7 +84,7 @@ int main(const int argc, char** argv)
     return 0;
 }
 
-char* extract_directory(int n, string path)
+string extract_directory(int n, string path)
 {
     char buffer[1024] = { 0 };
     int count = 0;
@@ -106,12 +106,12 @@ char* extract_directory(int n, string path)
                     index++;
                 }
                 buffer[i] = ch;
-                return (char*)string(buffer).c_str();
+                return buffer;
             }
         }
         index--;
     }
-    return NULL;
+    return "";
 } 
 
 //--------------------------------------------------------------------------//
-- 
2.43.0


From 28d5a938e0160289084a0a5a55809a57786008be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:01 +0000
Subject: [PATCH 73/81] fix: a name is looked up only when its statement is
 expanded

---
 CMakePasm/source/expand.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 5688cde..d119ae9 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -2161,7 +2161,8 @@ int is_uninitialized_symbol(const parse_node_ptr p)
     if (p->type == type_label || p->type == type_id)
     {
         // a local label or a name in a macro belongs to the macro call being expanded
-        if (p->type == type_id && (p->id.name[0] == '@' || !is_symbol_known(p)))
+        if (p->type == type_id && (p->id.name[0] == '@' || !is_symbol_known(p)) &&
+            (macro_depth > 0 || p->id.i != nullptr))
             expand_id_node(p);
         if (p->id.i == nullptr)
             return true;
-- 
2.43.0


From bfe78ce65722cd37b80bb519eb766505ffe5dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:40 +0000
Subject: [PATCH 74/81] fix: the program counter alone is an operand (jmp *)

---
 CMakePasm/source/pasm.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/pasm.y b/CMakePasm/source/pasm.y
index 2933f41..72cebc5 100644
--- a/CMakePasm/source/pasm.y
+++ b/CMakePasm/source/pasm.y
@@ -236,11 +236,11 @@ expr
     | subexpr '/' subexpr               { B_TOK("expr subexpr / subexpr")           $$ = operator_node('/', 2, $1, $3);                         }
     | '-'                               { B_TOK("expr id_node -")                   $$ = id_node("-");                                          }
     | '+'                               { B_TOK("expr id_node +")                   $$ = id_node("+");                                          }
+    | '*'                               { B_TOK("expr PC")               $$ = constant_node(program_counter, true);  }
     ;
 
 subexpr
     : expr                              { B_TOK("subexpr expr")         $$ = $1;                                    }
-    | '*'                               { B_TOK("subexpr PC")           $$ = constant_node(program_counter, true);  }
     | '(' subexpr ')'                   { B_TOK("subexpr ( subexpr )")  $$ = $2;                                    }
     ;
 
-- 
2.43.0


From 90a48f7b18747afb8f5443570eb897ac66390764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:21 +0000
Subject: [PATCH 75/81] fix: a symbol used only in a conditional branch that is
 not assembled need not be defined

---
 CMakePasm/source/expand.cc | 6 ++++++
 CMakePasm/source/node.cc   | 2 +-
 CMakePasm/source/sym.cc    | 6 +++++-
 CMakePasm/source/sym.h     | 1 +
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index d119ae9..0d0e6d5 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -558,6 +558,8 @@ int expand_id_node(const parse_node_ptr p)
             return 0;
         }
     }
+    if (!parsing_operand)
+        sym->referenced_pass = pass;
     return sym->is_initialized ? sym->value : 0;
 }
 
@@ -580,6 +582,8 @@ int expand_label_node(const parse_node_ptr p)
             exit(-1);
         }
     }
+    if (!parsing_operand)
+        symbol_ptr->referenced_pass = pass;
     if (!symbol_ptr->is_initialized && p->number_of_ops > 0)
         expand_node(p->op[0]);
 
@@ -2170,6 +2174,8 @@ int is_uninitialized_symbol(const parse_node_ptr p)
         if (sym->is_macro_param || sym->is_macro_name)
             return false;
 
+        if (!parsing_operand)
+            sym->referenced_pass = pass;
         return !sym->is_initialized;
     }
     return false;
diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 89437e7..6b1dfb8 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -368,10 +368,10 @@ parse_node_ptr opcode_node(const int op, int mode, const int number_of_ops, ...)
             p->op[index] = va_arg(ap, parse_node_ptr);
             val = expand_node(p->op[index]);
         }
-        parsing_operand = false;
         va_end(ap);
     }
     const bool has_uninitialized = has_uninitialized_symbol(p);
+    parsing_operand = false;
 
 
     /* Take care of ASL A   etc */
diff --git a/CMakePasm/source/sym.cc b/CMakePasm/source/sym.cc
index 83b5d31..617c696 100644
--- a/CMakePasm/source/sym.cc
+++ b/CMakePasm/source/sym.cc
@@ -170,6 +170,8 @@ symbol_table_ptr add_symbol(char* name)
     symbol_table_ptr tmp_ptr = look_up_symbol(name);
     if (tmp_ptr != NULL)
     {
+        if (!parsing_operand)
+            tmp_ptr->referenced_pass = pass;
         current_scope = temp_section;
         if (is_qualified)
             tmp_ptr->is_qualified = true;
@@ -218,6 +220,8 @@ symbol_table_ptr add_symbol(char* name)
         sym.is_local = true;
     }
 
+    if (!parsing_operand)
+        sym.referenced_pass = pass;
     sym.is_qualified = is_qualified;
     current_scope = temp_section;
     tmp_ptr = static_cast<symbol_table_ptr>(dict_insert(&symbol_dictionary, sym.fullname, &sym));
@@ -833,7 +837,7 @@ int unresolved_symbol_count(void)
         {
             const auto sym = static_cast<symbol_table_ptr>(elem->value);
 
-            if (sym->is_initialized == false && sym->is_macro_name == false &&
+            if (sym->is_initialized == false && sym->referenced_pass == pass && sym->is_macro_name == false &&
                 sym->is_var == false && sym->is_plus_minus == false && sym->is_macro_param == false)
             {
                 // referred to in a section before the symbol was defined outside
diff --git a/CMakePasm/source/sym.h b/CMakePasm/source/sym.h
index 8f7d2e1..6cac2eb 100644
--- a/CMakePasm/source/sym.h
+++ b/CMakePasm/source/sym.h
@@ -30,6 +30,7 @@ typedef struct symbol_table
     char* fullname;
     void* macro_node;
     int defined_pass;
+    int referenced_pass;    // last pass in which a statement that was assembled used it
 } symbol_table, * symbol_table_ptr;
 
 // defined_pass of a symbol defined on the command line
-- 
2.43.0


From 49a45828efacc4bede75125143822f02bb4538b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:06 +0000
Subject: [PATCH 76/81] fix: the listing keeps files whose names differ in case
 apart

---
 CMakePasm/source/genlist.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CMakePasm/source/genlist.cc b/CMakePasm/source/genlist.cc
index 7afda5b..b8f6185 100644
--- a/CMakePasm/source/genlist.cc
+++ b/CMakePasm/source/genlist.cc
@@ -27,7 +27,7 @@ file_line_node* get_file_line(char* file, const int line)
     file_entry* current_file_entry = source_file_list;
     file_entry* prev = nullptr;
 
-    for (; current_file_entry != nullptr && stricmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
+    for (; current_file_entry != nullptr && strcmp(current_file_entry->filename, file) != 0; current_file_entry = current_file_entry->next)
         prev = current_file_entry;
 
     if (!current_file_entry)
@@ -47,7 +47,7 @@ file_line_node* get_file_line(char* file, const int line)
         if (source_file_list == nullptr)
             source_file_list = current_file_entry;
 
-        if (stricmp(current_file_entry->filename, file) == 0)
+        if (strcmp(current_file_entry->filename, file) == 0)
         {
             file_line_node* line_entry = current_file_entry->lines;
             for (; line_entry && line_entry->line_number < line; line_entry = line_entry->next)
@@ -106,7 +106,7 @@ void generate_list_file(FILE* list_file)
     // loop through all list  nodes
     for (; list_node; list_node = list_node->next)
     {
-        if (current_file_name == nullptr || stricmp(current_file_name, list_node->filename))
+        if (current_file_name == nullptr || strcmp(current_file_name, list_node->filename))
         {
 
 
@@ -128,7 +128,7 @@ void generate_list_file(FILE* list_file)
 
         const int start_line = list_node->line;
         int end_line = start_line;
-        if (list_node->next && stricmp(list_node->filename, list_node->next->filename) == 0 &&
+        if (list_node->next && strcmp(list_node->filename, list_node->next->filename) == 0 &&
             list_node->next->line > list_node->line)
             end_line = list_node->next->line - 1;
 
-- 
2.43.0


From 989ae5d23e54bae08a59dd3e9428c3048ccf3849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:16 +0000
Subject: [PATCH 77/81] fix: a negative immediate operand is listed as the byte
 it emits

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index 6b1dfb8..cace72a 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1829,7 +1829,7 @@ int generate_list_node(const parse_node_ptr p)
             break;
 
         case I:      /* immediate           */
-            sprintf(current_ptr, "#$%02X ", op);
+            sprintf(current_ptr, "#$%02X ", op & 0xFF);
             break;
 
         case zp:     /* zero page            */
-- 
2.43.0


From 89d10214fec1fe675b8703bfdba67dfea5668b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:17 +0000
Subject: [PATCH 78/81] fix: jmp (addr,x) is listed with its parentheses

---
 CMakePasm/source/node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/node.cc b/CMakePasm/source/node.cc
index cace72a..7fb9bf1 100644
--- a/CMakePasm/source/node.cc
+++ b/CMakePasm/source/node.cc
@@ -1861,7 +1861,7 @@ int generate_list_node(const parse_node_ptr p)
             break;
 
         case aix:    /* absolute indirect x  */  // NOLINT(bugprone-branch-clone)
-            sprintf(current_ptr, "$%04X,x ", op);
+            sprintf(current_ptr, "($%04X,x) ", op);
             break;
 
         case ax:     /* absolute x           */
-- 
2.43.0


From c76b93693ec0e4f0f0c57ba7d662333199745fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:21 +0000
Subject: [PATCH 79/81] fix: a branch to a local or anonymous label at address
 0 is relaxed like any other

---
 CMakePasm/source/expand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakePasm/source/expand.cc b/CMakePasm/source/expand.cc
index 0d0e6d5..2603d91 100644
--- a/CMakePasm/source/expand.cc
+++ b/CMakePasm/source/expand.cc
@@ -913,7 +913,7 @@ int expand_op_code_node(const parse_node_ptr p)
             // fix for local labels
             const char ch = (pp->type == type_id) ? pp->id.name[0] : 0;
             if (op_value == 0 && p->opcode.mode == r && p->number_of_ops == 1 && pp->type == type_id 
-                && (ch == '@' || ch == '-' || ch =='+') )
+                && (ch == '@' || ch == '-' || ch =='+') && is_uninitialized_symbol(pp))
                 op_value = program_counter;
 
             // ReSharper disable once CppRedundantParentheses
-- 
2.43.0


From 5464fb90c6ea0dfc57ae508148c52f541b7284e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:09 +0000
Subject: [PATCH 80/81] fix: forget the lexer state of an input with a syntax
 error before the next input

A syntax error inside a macro definition left in_macro_definition set, so
that the loops of the next input file never ended.
---
 CMakePasm/source/flex.h  |  1 +
 CMakePasm/source/pasm.l  | 16 ++++++++++++++++
 CMakePasm/source/pass.cc |  3 +++
 3 files changed, 20 insertions(+)

diff --git a/CMakePasm/source/flex.h b/CMakePasm/source/flex.h
index f5dbe26..30295ff 100644
--- a/CMakePasm/source/flex.h
+++ b/CMakePasm/source/flex.h
@@ -34,6 +34,7 @@ extern void* yyalloc(yy_size_t);
 extern void* yyrealloc(void*, size_t);
 extern void yyfree(void*);
 extern void yyrestart(FILE* input_file);
+extern void reset_lex_input(void);
 extern int yylineno;
 extern FILE* yyin;
 extern void yypush_buffer_state(YY_BUFFER_STATE new_buffer);
diff --git a/CMakePasm/source/pasm.l b/CMakePasm/source/pasm.l
index 9673740..6d4a3e4 100644
--- a/CMakePasm/source/pasm.l
+++ b/CMakePasm/source/pasm.l
@@ -465,3 +465,19 @@ $[0-9A-Fa-f]+               { SV_TOK INT(1, 16)}
 .                           { yyerror("Parse: syntax error"); }
 
 %%
+
+/**
+ * \brief Forget the state a syntax error in an earlier input left behind
+ */
+void reset_lex_input(void)
+{
+    while (YY_CURRENT_BUFFER)
+        yypop_buffer_state();
+    BEGIN(INITIAL);
+
+    if (last_token != nullptr) FREE(last_token);
+    last_token = nullptr;
+
+    do_count = 0;
+    in_macro_definition = 0;
+}
diff --git a/CMakePasm/source/pass.cc b/CMakePasm/source/pass.cc
index 00180ef..4508a00 100644
--- a/CMakePasm/source/pass.cc
+++ b/CMakePasm/source/pass.cc
@@ -132,6 +132,9 @@ void parse_pass(void)
         fseek(yyin, 0, SEEK_SET);
 
         // reset parser
+        reset_lex_input();
+        file_stack->clear(file_stack->instance);
+        ifdef_stack->clear(ifdef_stack->instance);
         yyrestart(yyin);
 
         if (final_pass)
-- 
2.43.0


From 74ede25ff2dd1c8327bf8f236d901ec3d429a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:47 +0000
Subject: [PATCH 81/81] fix: a rejected value does not make the next statement
 an error

The bytes of a value out of range are missing in the output, which was
reported as another error in the statement after it, and ended the run
without the remaining diagnostics.
---
 CMakePasm/source/genoutput.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CMakePasm/source/genoutput.cc b/CMakePasm/source/genoutput.cc
index a6a3e25..778a343 100644
--- a/CMakePasm/source/genoutput.cc
+++ b/CMakePasm/source/genoutput.cc
@@ -291,7 +291,8 @@ int generate_output(FILE* file, const parse_node_ptr p)
     }
 
     const int delta = program_counter - (origin + total_bytes_written - byte_delta);
-    if (delta > 0)
+    // a value that was rejected is missing in the output
+    if (delta > 0 && error_count == 0)
     {
         error(error_value_out_of_range);
         exit(-1);        
-- 
2.43.0

