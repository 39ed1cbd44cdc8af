From 7d0eec24ea8892b134dd75c936b15381f428561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 01/14] fix: reject forward-referenced JMP with an index
 register

JMP LATER,X passed the addressing mode check because the forward
reference path masked with ABSOLUTE_FIELD only, and the resolver then
wrote the error code of get_opcode() as the opcode.
---
 src/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 2a2bc35..cdcd3fb 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -561,7 +561,9 @@ int parse_forward_ref_addr_mode(struct Lexer *lexer, struct Instruction *instr)
 		instr->addr_bitflag = addr_mode & ADDR_MODE_RELATIVE;
 	} else if (instr->mnemonic == JMP) {
 		// JMP has two modes, so we AND with the FIELD!!!
-		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD;
+		// the FIELD also has the register modes, which JMP lacks
+		instr->addr_bitflag = addr_mode & ABSOLUTE_FIELD &
+		                      instr->addr_bitfield;
 	} else if (instr->mnemonic == JSR) {
 		// JSR has only one mode
 		instr->addr_bitflag = addr_mode & ADDR_MODE_ABSOLUTE;
-- 
2.43.0


From c2df7ac71397048e3e875bf454533aa04af14a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 02/14] fix: reject tokens after an indexed operand

LDA $10,X followed by anything was accepted and the rest of the line was
silently dropped.
---
 src/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index cdcd3fb..1bec334 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -111,8 +111,11 @@ int parse_instr_tree(struct Lexer *lexer, int index)
 			// OPERAND,X
 			// OPERAND,Y
 			if (seq[index]->type == TOKEN_X_REGISTER ||
-			    seq[index]->type == TOKEN_Y_REGISTER)
-				return PARSER_SUCCESS;
+			    seq[index]->type == TOKEN_Y_REGISTER) {
+				index++;
+				if (seq[index]->type == TOKEN_NULL)
+					return PARSER_SUCCESS;
+			}
 		}
 	}
 	// #
-- 
2.43.0


From 5b8186778f5c68136cc7cce63aca350b7d600127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 03/14] fix: do not write forward reference placeholders at a
 stale file position

The dummy bytes went to wherever the previous instruction had left the
file position, so after an .ORG or *= they overwrote bytes that were
already assembled. generate_code() already writes the placeholder at pc.
---
 src/main.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index a2dcd8f..fd581a9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -217,10 +217,6 @@ int main(int argc, char *argv[])
 		                               symtab);
 		if (IS_ERROR(operand_status))
 			ABORT_ASSEMBLY();
-		else if (operand_status == BRANCH_FORWARD_REFERENCE)
-			written_bytes = 2;
-		else if (operand_status == JUMP_FORWARD_REFERENCE)
-			written_bytes = 3;
 
 		return_code = parse_addr_mode(lexer, instr, operand,
 		                             operand_status);
@@ -232,12 +228,6 @@ int main(int argc, char *argv[])
 				ABORT_ASSEMBLY();
 			if (IS_ERROR(add_forward_ref(unresolved, ref)))
 				ABORT_ASSEMBLY();
-
-			// write dummy bytes
-			fputc(0x00, outf);
-			fputc(0x00, outf);
-			if (written_bytes == 3)
-				fputc(0x00, outf);
 		} else if (IS_ERROR(return_code)) {
 			ABORT_ASSEMBLY();
 		}
-- 
2.43.0


From 902d9b376e1ddcf66b63e8cf98ced3260a8419ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 04/14] fix: report lines with more than 8 tokens

lex_line() expects the parser to pinpoint the first bad token of such a
line, but main() aborted before parsing it, without any message.
---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index fd581a9..ab805aa 100644
--- a/src/main.c
+++ b/src/main.c
@@ -187,7 +187,9 @@ int main(int argc, char *argv[])
 	int total_bytes = 0;
 	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
-		if (IS_ERROR(return_code))
+		// lex_line() leaves it to the parser to report too many tokens
+		if (IS_ERROR(return_code) &&
+		    return_code != ERROR_TOO_MANY_TOKENS)
 			ABORT_ASSEMBLY();
 
 		return_code = parse_line(lexer);
-- 
2.43.0


From e76f6bd3efb1ab0b1bb40612e122392018adddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 05/14] fix: do not wrap literals of more than 64 bits

$10000000000000001 overflowed the accumulator and was accepted as 1.
---
 src/lexer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index cfeecb7..a187e9a 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -357,8 +357,11 @@ int lex_literal(const char *literal, struct Token *tk)
 	while (*curr) {
 		char_value = (*converter_func)(*curr);
 		if (char_value != ERROR_ILLEGAL_CHAR) {
-			total *= base;
-			total += char_value;
+			// stop accumulating once too big so it cannot wrap
+			if (total <= 0xFFFF) {
+				total *= base;
+				total += char_value;
+			}
 			num_chars++;
 			curr++;
 		} else if (!is_end_of_token(*curr)) {
-- 
2.43.0


From 2d771c7eb515eb4d48d976665e6aff75d39592da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 06/14] fix: reject literal branch offsets over one byte

BNE $1234 was assembled as BNE $34.
---
 src/parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 1bec334..e872449 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -640,7 +640,9 @@ int parse_addr_mode(struct Lexer *lexer, struct Instruction *instr,
 		// see comment above in parse_label_operand()
 		// operand value might be an absolute address, but a branch
 		// instruction always has an operand that fits in 1 byte
-		if (!is_branch(instr->mnemonic))
+		// a literal is the offset itself, so it has to fit already
+		if (!is_branch(instr->mnemonic) ||
+		    operand->type == TOKEN_LITERAL)
 			addr_mode = ABSOLUTE_FIELD;
 		else
 			addr_mode = ZERO_PAGE_FIELD;
-- 
2.43.0


From f08883350cdae79961e4b166e32a78abc98f8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 07/14] fix: read source lines of any length

fgets() with a 128 byte buffer split longer lines, so that the end of a
long comment was assembled as code and line numbers went out of step.
---
 src/main.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index ab805aa..32824dd 100644
--- a/src/main.c
+++ b/src/main.c
@@ -4,6 +4,8 @@ The Gaia assembler for 6502 Assembly.
 
 */
 
+#define _POSIX_C_SOURCE 200809L  // getline()
+
 #include <argp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -92,6 +94,7 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 #define ABORT_ASSEMBLY()                                                     \
 	do {                                                                 \
 		abort_gaia(inf, outf, lexer, tk, instr, symtab, unresolved); \
+		free(buffer);                                                \
 		return EXIT_FAILURE;                                         \
 	} while (0)
 
@@ -103,8 +106,6 @@ error_t parse_opt(int key, char *arg, struct argp_state *state)
 */
 #define IS_ERROR(code) ((code) < 0)
 
-#define MAX_BUFFER_SIZE 128
-
 /* abort_gaia()
 	@inf            source file
 	@outf           assembled binary file
@@ -151,6 +152,8 @@ int main(int argc, char *argv[])
 
 	FILE *inf = NULL;
 	FILE *outf = NULL;
+	char *buffer = NULL;
+	size_t buffer_size = 0;
 	struct Lexer *lexer = init_lexer(args.src_file);
 	struct Token *tk = init_token();
 	struct Instruction *instr = init_instruction();
@@ -175,7 +178,6 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 
-	char buffer[MAX_BUFFER_SIZE];
 	int line_num = 1;
 	int return_code;
 	int pc = 0x0;
@@ -185,7 +187,7 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
-	while (fgets(buffer, MAX_BUFFER_SIZE, inf)) {
+	while (getline(&buffer, &buffer_size, inf) != -1) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// lex_line() leaves it to the parser to report too many tokens
 		if (IS_ERROR(return_code) &&
@@ -274,6 +276,7 @@ int main(int argc, char *argv[])
 
 	fclose(inf);
 	fclose(outf);
+	free(buffer);
 	destroy_lexer(lexer);
 	destroy_token(tk);
 	destroy_instruction(instr);
-- 
2.43.0


From 5a5b372e7dc1e33808c6e140aaa974b63a863890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 08/14] fix: report source read and output write failures

A full disk, an unseekable output or an unreadable source still ended in
"Assembly successful" and exit status 0.
---
 src/error.c |  8 ++++++++
 src/error.h |  2 ++
 src/main.c  | 23 +++++++++++++++++++++--
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/error.c b/src/error.c
index 4bc501b..c5fd1b4 100644
--- a/src/error.c
+++ b/src/error.c
@@ -24,6 +24,8 @@ printed, which is aligned to the error in the source line.
 		ERROR_MEMORY_ALLOCATION_FAIL
 		ERROR_FILE_OPEN_FAIL
 		ERROR_BINARY_FILE_CREATION_FAIL
+		ERROR_FILE_READ_FAIL
+		ERROR_BINARY_FILE_WRITE_FAIL
 	These cases should pass in NULL for @line and @bad_char.
 	The following do not print the error arrow:
 		ERROR_UNKNOWN
@@ -77,6 +79,12 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_BINARY_FILE_CREATION_FAIL:
 		printf("ERROR: assembled binary file could not be created\n");
 		break;
+	case ERROR_FILE_READ_FAIL:
+		printf("ERROR: %s could not be read\n", file_name);
+		break;
+	case ERROR_BINARY_FILE_WRITE_FAIL:
+		printf("ERROR: assembled binary file could not be written\n");
+		break;
 	case ERROR_MISSING_LABEL_DEFINITION:
 		printf("ERROR: label definition was not found\n");
 		break;
diff --git a/src/error.h b/src/error.h
index 6fe0355..92812d1 100644
--- a/src/error.h
+++ b/src/error.h
@@ -39,6 +39,8 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_MISSING_LABEL_DEFINITION  -18
 #define ERROR_ILLEGAL_DIRECTIVE         -19
 #define ERROR_ILLEGAL_BASE              -20
+#define ERROR_FILE_READ_FAIL            -21
+#define ERROR_BINARY_FILE_WRITE_FAIL    -22
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/main.c b/src/main.c
index 32824dd..439abd0 100644
--- a/src/main.c
+++ b/src/main.c
@@ -172,7 +172,8 @@ int main(int argc, char *argv[])
 		ABORT_ASSEMBLY();
 	}
 	outf = fopen(args.out_file, "wb");
-	if (!outf) {
+	// bytes are placed with fseek(), so pipes and the like are of no use
+	if (!outf || fseek(outf, 0, SEEK_SET)) {
 		print_error(NULL, ERROR_BINARY_FILE_CREATION_FAIL, NULL,
 		            args.src_file, -1);
 		ABORT_ASSEMBLY();
@@ -187,6 +188,7 @@ int main(int argc, char *argv[])
 	int written_bytes = 0;
 	struct ForwardRef *ref;
 	int total_bytes = 0;
+	int end_of_source = 0;
 	while (getline(&buffer, &buffer_size, inf) != -1) {
 		return_code = lex_line(buffer, lexer, tk, instr, line_num);
 		// lex_line() leaves it to the parser to report too many tokens
@@ -208,6 +210,7 @@ int main(int argc, char *argv[])
 		           first->type == TOKEN_ORG_DIRECTIVE) {
 			pc = first->value;
 		} else if (first->type == TOKEN_END_DIRECTIVE) {
+			end_of_source = 1;
 			break;
 		}
 
@@ -253,6 +256,12 @@ int main(int argc, char *argv[])
 		total_bytes += written_bytes;
 	}
 
+	if (!end_of_source && !feof(inf)) {
+		print_error(NULL, ERROR_FILE_READ_FAIL, NULL, args.src_file,
+		            -1);
+		ABORT_ASSEMBLY();
+	}
+
 	int dest_pc;
 	for (int i = 0; i < unresolved->curr; i++) {
 		ref = unresolved->refs[i];
@@ -270,12 +279,22 @@ int main(int argc, char *argv[])
 			ABORT_ASSEMBLY();
 	}
 
+	// write errors may only show up once everything is flushed
+	int write_fail = ferror(outf);
+	if (fclose(outf))
+		write_fail = 1;
+	outf = NULL;
+	if (write_fail) {
+		print_error(NULL, ERROR_BINARY_FILE_WRITE_FAIL, NULL,
+		            args.src_file, -1);
+		ABORT_ASSEMBLY();
+	}
+
 	printf("Assembly successful.\n");
 	printf("%i (0x%04x) bytes assembled.\n", total_bytes, total_bytes);
 	printf("%i symbols.\n", symtab->count);
 
 	fclose(inf);
-	fclose(outf);
 	free(buffer);
 	destroy_lexer(lexer);
 	destroy_token(tk);
-- 
2.43.0


From 9e4d2aea2c7fd652a8d1d1a2412f1b0bc3937924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 09/14] fix: report allocation failures while assembling

They ended the run without any message.
---
 src/main.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 439abd0..8766526 100644
--- a/src/main.c
+++ b/src/main.c
@@ -204,6 +204,9 @@ int main(int argc, char *argv[])
 		if (first->type == TOKEN_LABEL ||
 		    first->type == TOKEN_DEFINE_DIRECTIVE) {
 			return_code = parse_label_declaration(lexer, symtab, pc);
+			if (return_code == ERROR_MEMORY_ALLOCATION_FAIL)
+				print_error(NULL, return_code, NULL,
+				            args.src_file, -1);
 			if (IS_ERROR(return_code))
 				ABORT_ASSEMBLY();
 		} else if (first->type == TOKEN_BASE ||
@@ -231,10 +234,14 @@ int main(int argc, char *argv[])
 			ref = create_forward_ref(buffer, instr, operand,
 			                         operand_status, pc,
 			                         line_num);
-			if (!ref)
-				ABORT_ASSEMBLY();
-			if (IS_ERROR(add_forward_ref(unresolved, ref)))
+			if (!ref ||
+			    IS_ERROR(add_forward_ref(unresolved, ref))) {
+				print_error(NULL, ERROR_MEMORY_ALLOCATION_FAIL,
+				            NULL, args.src_file, -1);
+				if (ref)
+					destroy_forward_ref(ref);
 				ABORT_ASSEMBLY();
+			}
 		} else if (IS_ERROR(return_code)) {
 			ABORT_ASSEMBLY();
 		}
-- 
2.43.0


From 6d1c7b8eed195cafe124271ebfb2b2f957f4a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 10/14] fix: release partially built objects when an allocation
 fails

Also keep the old array when growing the forward references fails, so that
destroy_unresolved() can still free it.
---
 src/forward_reference.c | 23 ++++++++++++++++-------
 src/lexer.c             | 14 +++++++++++---
 src/symbol_table.c      |  8 ++++++--
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/forward_reference.c b/src/forward_reference.c
index 398d4ec..d211009 100644
--- a/src/forward_reference.c
+++ b/src/forward_reference.c
@@ -33,8 +33,10 @@ struct Unresolved *init_unresolved(void)
 
 	struct ForwardRef **refs = calloc(BASE_SIZE,
 	                                  sizeof(struct ForwardRef *));
-	if (!refs)
+	if (!refs) {
+		free(unresolved);
 		return NULL;
+	}
 
 	unresolved->refs = refs;
 	unresolved->curr = 0;
@@ -100,7 +102,7 @@ struct ForwardRef *create_forward_ref(const char *buffer,
                                       const struct Token *operand,
                                       int operand_status, int pc, int line_num)
 {
-	struct ForwardRef *ref = malloc(sizeof(struct ForwardRef));
+	struct ForwardRef *ref = calloc(1, sizeof(struct ForwardRef));
 	if (!ref)
 		return NULL;
 
@@ -118,22 +120,28 @@ struct ForwardRef *create_forward_ref(const char *buffer,
 	// copy source line into forward ref
 	size_t num_chars = end - begin + 1;
 	ref->source_line = calloc(num_chars + 1, sizeof(char));
-	if (!ref->source_line)
+	if (!ref->source_line) {
+		destroy_forward_ref(ref);
 		return NULL;
+	}
 	// keep the comments in, no one cares
 	memcpy(ref->source_line, begin, num_chars);
 
 	// copy label string into forward ref's label
 	size_t label_length = strlen(operand->str);
 	ref->label = calloc(label_length + 1, sizeof(char));
-	if (!ref->label)
+	if (!ref->label) {
+		destroy_forward_ref(ref);
 		return NULL;
+	}
 	memcpy(ref->label, operand->str, label_length);
 
 	// copy instr into forward ref's instr
 	struct Instruction *new_instr = init_instruction();
-	if (!new_instr)
+	if (!new_instr) {
+		destroy_forward_ref(ref);
 		return NULL;
+	}
 	new_instr->mnemonic = instr->mnemonic;
 	new_instr->addr_bitfield = instr->addr_bitfield;
 	new_instr->addr_bitflag = instr->addr_bitflag;
@@ -166,10 +174,11 @@ struct ForwardRef *create_forward_ref(const char *buffer,
 struct Unresolved *resize_unresolved(struct Unresolved *unresolved)
 {
 	size_t new_size = 2 * unresolved->size * sizeof(struct ForwardRef *);
-	unresolved->refs = realloc(unresolved->refs, new_size);
-	if (!unresolved->refs)
+	struct ForwardRef **new_refs = realloc(unresolved->refs, new_size);
+	if (!new_refs)
 		return NULL;
 
+	unresolved->refs = new_refs;
 	// initialize new forward refs
 	unresolved->size *= 2;
 	for (int i = unresolved->size / 2; i < unresolved->size; i++)
diff --git a/src/lexer.c b/src/lexer.c
index a187e9a..a555de9 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -36,8 +36,10 @@ struct Token *init_token(void)
 
 	tk->type = TOKEN_NULL;
 	tk->str = calloc(MAX_TOKEN_STR_LEN, sizeof(char));
-	if (!tk->str)
+	if (!tk->str) {
+		free(tk);
 		return NULL;
+	}
 	tk->value = 0U;
 	tk->error_char = NULL;
 	tk->buffer_location = NULL;
@@ -60,8 +62,12 @@ static struct Token **init_sequence(void)
 	// initialize tokens in the sequence
 	for (int i = 0; i < MAX_TOKENS; i++) {
 		sequence[i] = init_token();
-		if (!sequence[i])
+		if (!sequence[i]) {
+			while (i > 0)
+				destroy_token(sequence[--i]);
+			free(sequence);
 			return NULL;
+		}
 	}
 	return sequence;
 }
@@ -80,8 +86,10 @@ struct Lexer *init_lexer(const char *file_name)
 		return NULL;
 
 	lexer->sequence = init_sequence();
-	if (!lexer->sequence)
+	if (!lexer->sequence) {
+		free(lexer);
 		return NULL;
+	}
 
 	lexer->curr = 0;
 	lexer->error_tk = NULL;
diff --git a/src/symbol_table.c b/src/symbol_table.c
index dc1237b..a43e0d2 100644
--- a/src/symbol_table.c
+++ b/src/symbol_table.c
@@ -35,8 +35,10 @@ struct SymbolTable *init_symbol_table(void)
 		return NULL;
 
 	symtab->symbols = calloc((size_t)BASE_SIZE, sizeof(struct Symbol *));
-	if (!symtab->symbols)
+	if (!symtab->symbols) {
+		free(symtab);
 		return NULL;
+	}
 
 	symtab->size = BASE_SIZE;
 	symtab->count = 0;
@@ -143,8 +145,10 @@ static struct Symbol *init_symbol(const char *label, const int value)
 		return NULL;
 
 	sym->label = calloc(strlen(label) + 1, sizeof(char));
-	if (!sym->label)
+	if (!sym->label) {
+		free(sym);
 		return NULL;
+	}
 
 	memcpy(sym->label, label, strlen(label));
 	sym->value = value;
-- 
2.43.0


From bb615a25285bf4d8e233e31a540f45457dd81f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 11/14] fix: reject code and labels past $FFFF

The program counter grew past 16 bits and addresses were silently
truncated to their low 2 bytes.
---
 src/error.c  | 4 ++++
 src/error.h  | 1 +
 src/main.c   | 8 +++++++-
 src/parser.c | 5 +++++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index c5fd1b4..7ab0bd0 100644
--- a/src/error.c
+++ b/src/error.c
@@ -31,6 +31,7 @@ printed, which is aligned to the error in the source line.
 		ERROR_UNKNOWN
 		ERROR_ILLEGAL_ADDRESSING_MODE
 		ERROR_TOO_BIG_OFFSET
+		ERROR_TOO_BIG_ADDRESS
 */
 void print_error(const char *line, int error_code, const char *bad_char,
                  const char *file_name, int line_num)
@@ -79,6 +80,9 @@ void print_error(const char *line, int error_code, const char *bad_char,
 	case ERROR_BINARY_FILE_CREATION_FAIL:
 		printf("ERROR: assembled binary file could not be created\n");
 		break;
+	case ERROR_TOO_BIG_ADDRESS:
+		printf("ERROR: address exceeds 2 bytes\n");
+		break;
 	case ERROR_FILE_READ_FAIL:
 		printf("ERROR: %s could not be read\n", file_name);
 		break;
diff --git a/src/error.h b/src/error.h
index 92812d1..4a54840 100644
--- a/src/error.h
+++ b/src/error.h
@@ -41,6 +41,7 @@ Error codes used by the assembler. Also a prototype to print error messages.
 #define ERROR_ILLEGAL_BASE              -20
 #define ERROR_FILE_READ_FAIL            -21
 #define ERROR_BINARY_FILE_WRITE_FAIL    -22
+#define ERROR_TOO_BIG_ADDRESS           -23
 /*
 ;       ;       ;       ;       ;       ;
 */
diff --git a/src/main.c b/src/main.c
index 8766526..d338e49 100644
--- a/src/main.c
+++ b/src/main.c
@@ -258,9 +258,15 @@ int main(int argc, char *argv[])
 		if (IS_ERROR(written_bytes))
 			ABORT_ASSEMBLY();
 
-		line_num++;
 		pc += written_bytes;
 		total_bytes += written_bytes;
+		// the last byte of an instruction can be at $FFFF
+		if (pc > 0x10000) {
+			print_error(buffer, ERROR_TOO_BIG_ADDRESS, NULL,
+			            args.src_file, line_num);
+			ABORT_ASSEMBLY();
+		}
+		line_num++;
 	}
 
 	if (!end_of_source && !feof(inf)) {
diff --git a/src/parser.c b/src/parser.c
index e872449..b10c91a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -324,6 +324,11 @@ int parse_label_declaration(struct Lexer *lexer, struct SymbolTable *symtab,
 			            lexer->error_tk->buffer_location,
 			            lexer->file_name, lexer->line_num);
 			return ERROR_LABEL_REDEFINITION;
+		} else if (pc > 0xFFFF) {
+			// no room for anything after $FFFF
+			print_error(lexer->line, ERROR_TOO_BIG_ADDRESS, NULL,
+			            lexer->file_name, lexer->line_num);
+			return ERROR_TOO_BIG_ADDRESS;
 		} else {
 			label->value = pc;
 			return insert_symbol(symtab, label->str, label->value);
-- 
2.43.0


From f97a55375c1b5a9301c153b9cf5ae1984c24769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 12/14] fix: pass unsigned chars to the ctype functions

Source bytes over 0x7F made the argument negative, which is undefined.
---
 src/lexer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index a555de9..af233e6 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -444,7 +444,7 @@ int lex_directive(const char *buffer, struct Token *tk)
 		c = buffer[num_chars];
 		if (is_end_of_token(c)) {
 			break;
-		} else if (!isalpha(c)) {
+		} else if (!isalpha((unsigned char)c)) {
 			tk->error_char = &buffer[num_chars];
 			return ERROR_ILLEGAL_CHAR;
 		}
@@ -485,7 +485,7 @@ static int is_valid_token_char(const char c)
 {
 	// isalnum() is case-insensitive, although lex_text()
 	// guarantees everything is converted to uppercase
-	return isalnum(c) || c == '_';
+	return isalnum((unsigned char)c) || c == '_';
 }
 
 /* lex_text()
@@ -591,7 +591,7 @@ int lex(const char *buffer, struct Token *tk, struct Instruction *instr)
 		return 1;
 	}
 
-	if (isalpha(c))
+	if (isalpha((unsigned char)c))
 		return lex_text(buffer, tk, instr);
 	else if (c == '$' || c == '%' || (c >= '0' && c <= '9'))
 		return lex_literal(buffer, tk);
-- 
2.43.0


From 2c7a3ec2fe85cdad11d82ad591ac2aee168a8c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 13/14] fix: terminate the list of command line options

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index d338e49..9c1fc5c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -27,6 +27,7 @@ static char *doc = "Gaia assembles a 6502 source code file into a binary file.";
 static struct argp_option options[] = {
 	{"output", 'o', "FILE", 0, "Place assembled binary into <FILE>", 0},
 	// {"cmos",   'c', NULL,   0, "Use 65C02 opcodes",                  0}
+	{0}
 };
 
 // struct used as storage for arg_parse()
-- 
2.43.0


From 2a72e41f78a2d06f08936c82724bf84be657cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 14/14] fix: compute the symbol table load without overflow

---
 src/symbol_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_table.c b/src/symbol_table.c
index a43e0d2..cf149e5 100644
--- a/src/symbol_table.c
+++ b/src/symbol_table.c
@@ -171,7 +171,7 @@ int insert_symbol(struct SymbolTable *symtab, const char *label,
 {
 	// check load factor first
 	// if you insert first then you might have to hash it again -- waste!
-	int load = ((symtab->count + 1) * 100) / symtab->size;
+	long load = ((long)symtab->count + 1) * 100 / symtab->size;
 	if (load > 50) {
 		if (!resize_symbols(symtab))
 			return ERROR_MEMORY_ALLOCATION_FAIL;
-- 
2.43.0

