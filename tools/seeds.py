"""The planted bugs: written from the property texts and the code (mkseed.py confirms and stores them)."""

PRELUDE = r'''
# exit 0: the property holds on these inputs; nonzero: it does not
G=$PWD/gaia
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
bad() { echo "$*"; exit 1; }
# asm TEXT: assemble it (printf escapes), leaves $rc, $W/out, $W/b
asm() { printf "$1" > s.asm; rm -f b; timeout 20 "$G" -o b s.asm > out 2> err; rc=$?; }
hex() { od -An -v -tx1 b | tr -d ' \n'; }
'''

SEEDS = {}


def seed(id, property, needs, what, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, what=what, edits=edits, demo=demo)


# -- whole-line assembly ---------------------------------------------------------------------
seed("c10-zero-redefine", "C10", "a second definition of a label whose value is $0000",
     "a constant or label with value 0 can be silently redefined",
     [("src/parser.c", """		// constant label
		if (found != ERROR_SYMBOL_NOT_FOUND) {""", """		// constant label
		if (found != ERROR_SYMBOL_NOT_FOUND && found) {""")], r'''
asm 'K = $0\nK = $5\nLDA #K\n'
[ $rc = 1 ] && grep -q 's.asm:2:.*redefinition' out || bad "redefinition of a zero constant accepted"
asm 'K = $1\nK = $5\nLDA #K\n'
[ $rc = 1 ] || bad "redefinition accepted"
''')

seed("c06-jmp-page", "C06", "a forward JMP whose target lies at $xx00 with the low byte zero",
     "a forward jump to an address whose low byte is 0 is patched with the reference's own page",
     [("src/generator.c", """			fputc(dest_pc >> 8, f);
			return THREE_BYTES;
		}

		// this should never happen""", """			fputc((dest_pc & 0xFF ? dest_pc : ref->pc) >> 8, f);
			return THREE_BYTES;
		}

		// this should never happen""")], r'''
asm 'JMP L\n* = $0200\nL NOP\n'
[ $rc = 0 ] || bad "rejected"
[ "$(hex | head -c 6)" = 4c0002 ] || bad "bytes $(hex | head -c 6)"
''')

seed("c07-base-extra", "C07", "a second literal after the new program counter",
     "'* = $10 $20' is accepted and the trailing token ignored",
     [("src/parser.c", """			index++;
			if (seq[index]->type == TOKEN_NULL) {
				// base token will store the new location""",
       """			index++;
			if (seq[index]->type == TOKEN_NULL ||
			    seq[index]->type == TOKEN_LITERAL) {
				// base token will store the new location""")], r'''
asm '* = $10 $20\nNOP\n'
[ $rc = 1 ] && grep -q 's.asm:1:.*illegal base' out || bad "trailing literal accepted"
asm '* = $10\nNOP\n'
[ $rc = 0 ] || bad "base rejected"
''')

seed("c13-fwd-line", "C13", "an undefined label or a too far forward branch that is not on the last line",
     "the diagnostics of an unresolvable forward branch name the wrong line",
     [("src/generator.c", """			print_error(ref->source_line, ERROR_TOO_BIG_OFFSET,
			            ref->operand_location, lexer->file_name,
			            ref->line_num);""", """			print_error(ref->source_line, ERROR_TOO_BIG_OFFSET,
			            ref->operand_location, lexer->file_name,
			            lexer->line_num);""")], r'''
asm "NOP\nBNE L\n* = \$100\nL NOP\n"
[ $rc = 1 ] && grep -q '^s.asm:2: ERROR: branch offset' out || bad "$(head -1 out)"
''')

seed("c12-unresolved-ok", "C12", "a forward branch whose target is out of range while a later one is fine",
     "the error of a forward reference is overwritten, so gaia reports success",
     [("src/main.c", """		written_bytes = resolve_forward_ref(outf, ref, lexer, dest_pc);
		if (IS_ERROR(written_bytes))
			ABORT_ASSEMBLY();
	}""", """		written_bytes = resolve_forward_ref(outf, ref, lexer, dest_pc);
		if (IS_ERROR(written_bytes) &&
		    i + 1 == unresolved->curr)
			ABORT_ASSEMBLY();
	}""")], r'''
asm "BNE FAR\nJMP L\n* = \$100\nFAR NOP\nL NOP\n"
[ $rc = 1 ] || bad "success although a branch could not be resolved"
grep -q successful out && bad "claims success"
exit 0
''')

seed("c22-org-bytes", "C22", "a program that moves the program counter",
     "the reported size is the last program counter, not the bytes assembled",
     [("src/main.c", "total_bytes += written_bytes;", "total_bytes = pc;")], r'''
asm "NOP\nNOP\n* = \$200\nLDA #1\n"
[ $rc = 0 ] && grep -q '^4 (0x0004) bytes' out || bad "$(grep bytes out)"
''')

seed("c21-crlf-comment", "C08", "a carriage return directly after a text token",
     "a carriage return no longer ends a token, so CRLF sources fail",
     [("src/lexer.c", """	case '\\t':
	case '\\r':
	case '\\n':
	case '\\0':
	case ',':""", """	case '\\t':
	case '\\n':
	case '\\0':
	case ',':""")], r'''
asm 'CLC\r\nLDA #$10\r\n'
[ $rc = 0 ] && [ "$(hex)" = 18a910 ] || bad "CRLF source rejected: $(head -1 out)"
''')

seed("c04-label-same-line", "C04", "an instruction following a label on the same line after the counter moved",
     "'.ORG' to an address below the current one is ignored",
     [("src/main.c", "			pc = first->value;", "			pc = (int)first->value < pc ? pc : (int)first->value;")], r'''
asm '* = $10\nNOP\n* = $4\nCLC\n'
[ $rc = 0 ] && [ "$(hex | tail -c +9 | head -c 2)" = 18 ] || bad "CLC not at 4: $(hex)"
''')

seed("c04-append", "C04", "an output file that already exists",
     "the output is opened for appending, so bytes are not placed by address",
     [("src/main.c", "	outf = fopen(args.out_file, \"wb\");", "	outf = fopen(args.out_file, \"ab\");")], r'''
printf 'NOP\nNOP\n' > s.asm; printf 'CLC\n' > t.asm
"$G" -o b s.asm > /dev/null; "$G" -o b t.asm > /dev/null
[ "$(hex)" = 18 ] || bad "old contents kept: $(hex)"
''')

seed("c20-two-sources", "C20", "two source file arguments",
     "a second source argument silently replaces the first",
     [("src/main.c", "		if (state->arg_num >= 1) {", "		if (state->arg_num >= 2) {")], r'''
printf 'NOP\n' > s.asm; printf 'CLC\n' > t.asm
"$G" -o b s.asm t.asm > out 2>&1 && bad "two sources accepted"
"$G" -o b s.asm > out 2>&1 || bad "one source rejected"
''')

seed("c21-blank-count", "C21", "an error after a blank or comment line",
     "label-only lines are not counted, so later diagnostics name the wrong line",
     [("src/main.c", """		if (instr->mnemonic == NULL_MNEMONIC) {
			line_num++;
			continue;""", """		if (instr->mnemonic == NULL_MNEMONIC) {
			line_num += first->type != TOKEN_LABEL;
			continue;""")], r'''
asm 'L\nM\nLDA $12345\n'
grep -q '^s.asm:3:' out || bad "$(head -1 out)"
''')
seed("c24-pc", "C24", "a two byte instruction at $FFFF",
     "an instruction whose operand lies past $FFFF is assembled",
     [("src/main.c", "		pc += written_bytes;", "		pc = (pc + written_bytes) & 0x1FFFF;\n		if (pc == 0x10001)\n			pc = 0x10000;")], r'''
asm '* = $FFFF\nLDA #1\n'
[ $rc = 1 ] || bad "operand byte at 0x10000 accepted"
''')

# -- boundaries and rare shapes --------------------------------------------------------------
seed("c03-back-high", "C03", "a jump back to a label at or above $8000",
     "the operand of a jump to a known label loses its top bit",
     [("src/generator.c", "		label->value = dest_pc;\n", "		label->value = dest_pc & 0x7FFF;\n")], r'''
asm "* = \$C000\nL NOP\nJMP L\n"
[ $rc = 0 ] && [ "$(hex | tail -c 8)" = ea4c00c0 ] || bad "bytes $(hex | tail -c 8)"
''')

seed("c11-old-size", "C11", "a collision near the end of the old table while the table grows",
     "symbols that collide while the table grows are put where lookups do not find them",
     [("src/symbol_table.c", "				rehash = (rehash + 1) % new_size;", "				rehash = (rehash + 1) % symtab->size;")], r'''
for n in $(seq 1 5 320); do
	{ for i in $(seq $n); do echo "LBL_$i = $i"; done; for i in $(seq $n); do echo "JMP LBL_$i"; done; } > s.asm
	timeout 20 "$G" -o b s.asm > out 2> err || bad "$n labels: $(head -2 out)"
done
''')

seed("c14-tab-late", "C14", "a tab after more than eight other characters, before the offending token",
     "the arrow does not allow for a tab that comes after the eighth column",
     [("src/error.c", "		if (tab_align == 8)\n			tab_align = 0;\n", "		if (tab_align == 16)\n			tab_align = 0;\n")], r'''
asm 'LABEL123456 LDA\t#%%2\n'
[ $rc = 1 ] || bad "accepted"
n=$(sed -n '3s/^\( *\)^.*/\1/p' out | tr -d '\n' | wc -c)
[ "$n" = 18 ] || bad "arrow in column $n"
''')

seed("c16-jump-instr", "C16", "a forward jump",
     "the instruction kept with a forward jump is never released",
     [("src/forward_reference.c", "	if (ref->instr)\n		destroy_instruction(ref->instr);", "	if (ref->instr && is_branch(ref->instr->mnemonic))\n		destroy_instruction(ref->instr);")], r'''
printf 'JMP L\nBNE L\nL NOP\n' > s.asm
valgrind -q --leak-check=full --show-leak-kinds=definite,indirect --errors-for-leak-kinds=definite,indirect --error-exitcode=9 "$G" -o b s.asm > out 2> err
[ $? = 0 ] || bad "$(cat err)"
''')

seed("c17-instr", "C17", "the allocation for an instruction fails",
     "a failed allocation of an instruction is used",
     [("src/opcode.c", "	if (!instr)\n		return NULL;\n\n	instr->mnemonic = NULL_MNEMONIC;\n	instr->addr_bitfield = 0;\n	instr->addr_bitflag = 0;\n	instr->opcode = 0;\n	return instr;",
       "	reset_instruction(instr);\n	instr->opcode = 0;\n	return instr;")], r'''
cat > f.c <<'E'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
void *malloc(size_t n)
{
	static void *(*real)(size_t);
	if (!real)
		real = dlsym(RTLD_NEXT, "malloc");
	static int left = -1;
	const char *s = getenv("FAILSIZE");
	if (left < 0)
		left = s ? atoi(getenv("FAILNTH")) : 0;
	if (s && n == (size_t)atoi(s) && left-- == 0)
		return NULL;
	return real(n);
}
E
gcc -shared -fPIC -o f.so f.c || exit 2
printf 'JMP L\nBNE L\nL NOP\n' > s.asm
for z in 16 24 32 40 48; do for n in 0 1 2; do
	FAILSIZE=$z FAILNTH=$n LD_PRELOAD=$PWD/f.so timeout 20 "$G" -o b s.asm > out 2> err
	r=$?
	[ $r -le 1 ] || bad "size $z, number $n: status $r"
done; done
''')

seed("c13-silent-create", "C13", "an output file that cannot be created",
     "no message is printed when the output file cannot be created",
     [("src/error.c", "		printf(\"ERROR: assembled binary file could not be created\\n\");\n		break;", "		if (line)\n			printf(\"ERROR: assembled binary file could not be created\\n\");\n		break;")], r'''
printf 'NOP\n' > s.asm
"$G" -o nodir/b s.asm > out 2>&1
[ $? = 1 ] && grep -q 'ERROR' out || bad "no message"
''')

seed("c21-end-first", "C21", "a source whose first line is .END",
     "a .END on the first line is ignored",
     [("src/main.c", "		} else if (first->type == TOKEN_END_DIRECTIVE) {", "		} else if (first->type == TOKEN_END_DIRECTIVE && line_num > 1) {")], r'''
asm '.END\nfoo bar\n'
[ $rc = 0 ] && [ ! -s b ] || bad "text after .END assembled: $(head -1 out)"
''')

seed("c22-fwd-branch", "C22", "a branch to a label that is not yet defined",
     "the bytes of forward branches are not counted in the report",
     [("src/main.c", "		total_bytes += written_bytes;\n", "		if (operand_status != BRANCH_FORWARD_REFERENCE)\n			total_bytes += written_bytes;\n")], r'''
asm 'BNE L\nL NOP\n'
grep -q '^3 (0x0003) bytes' out || bad "$(grep bytes out)"
''')

seed("c06-many", "C06", "more than 255 forward references",
     "with more than 255 forward references some are never completed",
     [("src/main.c", "	for (int i = 0; i < unresolved->curr; i++) {", "	for (int i = 0; i < (unresolved->curr & 0xFF); i++) {")], r'''
for n in 10 255 256 300; do
	{ for i in $(seq $n); do echo "JMP L"; done; echo "L NOP"; } > s.asm
	timeout 20 "$G" -o b s.asm > out 2> err || bad "$n references: failed"
	w=$(printf '4c%02x%02x' $((3*n & 255)) $((3*n >> 8)))
	[ "$(hex | head -c 6)" = $w ] && [ "$(hex | tail -c 8)" = ${w}ea ] || bad "$n references: $(hex | tail -c 8)"
done
''')

seed("c08-ref-name", "C08", "a forward reference whose label has more than 31 characters",
     "long label names are cut when a forward reference is stored, so the wrong label is used",
     [("src/forward_reference.c", "	memcpy(ref->label, operand->str, label_length);", "	memcpy(ref->label, operand->str, label_length > 31 ? 31 : label_length);")], r'''
A=abcdefghijklmnopqrstuvwxyzabcdef
asm "JMP ${A}1\n${A}0 NOP\n${A}1 NOP\n"
[ $rc = 0 ] && [ "$(hex)" = 4c0400eaea ] || bad "status $rc $(hex)"
''')

seed("c10-define", "C10", "a second definition by .DEFINE",
     "a .DEFINE of a label that exists is accepted",
     [("src/parser.c", "		if (found_define != ERROR_SYMBOL_NOT_FOUND) {", "		if (found_define == pc) {")], r'''
asm 'K = $5\nNOP\n.DEFINE K $7\nLDA #K\n'
[ $rc = 1 ] && grep -q 's.asm:3:.*redefinition' out || bad "accepted: $(hex)"
asm '.DEFINE K $0\nLDA #K\n'
[ $rc = 0 ] || bad "rejected"
''')

seed("c13-known-far", "C13", "a branch too far back",
     "a branch that is too far from a known label is reported with a wrong line number",
     [("src/generator.c", "			print_error(lexer->line, ERROR_TOO_BIG_OFFSET,\n			            label->buffer_location, lexer->file_name,\n			            lexer->line_num);", "			print_error(lexer->line, ERROR_TOO_BIG_OFFSET,\n			            label->buffer_location, lexer->file_name,\n			            lexer->curr);")], r'''
asm "L NOP\n* = \$200\nNOP\nNOP\nNOP\nBNE L\n"
[ $rc = 1 ] && grep -q '^s.asm:6: ' out || bad "$(head -1 out)"
''')

seed("c04-origin0", "C04", "the program counter set back to 0 after other code",
     "code at address 0 is written wherever the file position happens to be",
     [("src/generator.c", "	fseek(f, curr_pc, SEEK_SET);\n	fputc(instr->opcode, f);\n\n	int operand_bytes;", "	if (curr_pc)\n		fseek(f, curr_pc, SEEK_SET);\n	fputc(instr->opcode, f);\n\n	int operand_bytes;")], r'''
asm '* = $4\nNOP\n* = $0\nRTS\n'
[ $rc = 0 ] && [ "$(hex)" = 60000000ea ] || bad "bytes $(hex)"
''')

seed("c15-directive", "C15", "a directive of 65 or more letters",
     "a long directive is written behind the end of the token's text",
     [("src/lexer.c", "	for (num_chars = 1; num_chars < MAX_TOKEN_STR_LEN; num_chars++) {", "	for (num_chars = 1; num_chars <= MAX_TOKEN_STR_LEN; num_chars++) {")], r'''
gcc -g -fsanitize=address -o asan "$OLDPWD"/src/*.c -lm 2> gcc.log || exit 2
export ASAN_OPTIONS=detect_leaks=0
for n in $(seq 60 70); do
	printf '.%s\n' "$(printf 'A%.0s' $(seq $n))" > s.asm
	timeout 20 ./asan -o b s.asm > out 2> err
	[ $? = 1 ] && ! grep -q Sanitizer err || bad "$n letters: $(grep -m1 ERROR err)"
done
''')

seed("c20-update", "C20", "a source that may only be read",
     "the source file is opened for writing too",
     [("src/main.c", '	inf = fopen(args.src_file, "r");', '	inf = fopen(args.src_file, "r+");')], r'''
cp /bin/sleep s.asm && chmod +x s.asm
./s.asm 5 & p=$!
sleep 0.3
"$G" -o b s.asm > out 2> err
rc=$?
kill $p
grep -q 'could not be opened' out && bad "a source in use cannot be opened"
[ $rc = 1 ] || bad "status $rc"
''')

seed("c08-equal", "C08", "a directive that begins like .EQU",
     "any directive that begins with .EQU is taken as .EQU",
     [("src/lexer.c", '	} else if (!strcmp(tk->str, ".EQU")) {', '	} else if (!strncmp(tk->str, ".EQU", 4)) {')], r'''
asm 'L .EQUAL $5\nLDA #L\n'
[ $rc = 1 ] || bad ".EQUAL accepted"
asm 'L .equ $5\nLDA #L\n'
[ "$(hex)" = a905 ] || bad "bytes $(hex)"
''')

seed("c05-known", "C05", "a branch to a label that is defined and lies below $100",
     "such a branch gets the label's value as its offset",
     [("src/main.c", "		if (operand_status == BRANCH_OPERAND ||\n		    operand_status == JUMP_OPERAND) {", "		if ((operand_status == BRANCH_OPERAND && operand->value > 0xFF) ||\n		    operand_status == JUMP_OPERAND) {")], r'''
asm '* = $1000\nL NOP\nBNE L\n'
[ "$(hex | tail -c 6)" = ead0fd ] || bad "bytes $(hex | tail -c 6)"
asm '* = $10\nL NOP\nBNE L\n'
[ "$(hex | tail -c 6)" = ead0fd ] || bad "bytes $(hex | tail -c 6)"
''')

seed("c01-cpx", "C01", "CPX with an operand in the zero page indexed by X",
     "CPX $10,X is assembled",
     [("src/bitfields.h", "#define CPX_BITFIELD 0b0010100000100", "#define CPX_BITFIELD 0b0010100000110")], r'''
asm 'CPX $10\n'
[ "$(hex)" = e410 ] || bad "bytes $(hex)"
asm 'CPX $10,X\n'
[ $rc = 1 ] || bad "CPX zero page,X assembled: $(hex)"
''')

seed("c02-ldx", "C02", "LDX with an absolute operand indexed by Y",
     "LDX $1234,Y is rejected",
     [("src/bitfields.h", "#define LDX_BITFIELD 0b0010101000101", "#define LDX_BITFIELD 0b0010100000101")], r'''
asm 'LDX $1234,Y\n'
[ $rc = 0 ] || bad "rejected"
[ "$(hex)" = be3412 ] || bad "bytes $(hex)"
''')

seed("c09-zeros", "C09", "a literal of more than 32 characters",
     "a literal with many leading zeros is cut in two",
     [("src/lexer.c", "	while (*curr) {\n		char_value = (*converter_func)(*curr);", "	while (*curr && num_chars < 32) {\n		char_value = (*converter_func)(*curr);")], r'''
for n in 3 17 28 40; do
	asm "LDA #\$$(printf '0%.0s' $(seq $n))2A\n"
	[ $rc = 0 ] && [ "$(hex)" = a92a ] || bad "$n zeros: status $rc, bytes $(hex)"
done
''')

seed("c15-missing", "C15", "a reference to a label that is defined nowhere, followed by other lines",
     "the arrow of a missing definition is looked for in another text",
     [("src/main.c", "			print_error(ref->source_line,\n			            ERROR_MISSING_LABEL_DEFINITION,", "			print_error(buffer,\n			            ERROR_MISSING_LABEL_DEFINITION,")], r'''
gcc -g -fsanitize=address -o asan "$OLDPWD"/src/*.c -lm 2> gcc.log || exit 2
export ASAN_OPTIONS=detect_leaks=0
printf 'NOP\nJMP NOWHERE\nLDA #$5\n' > s.asm
timeout 20 ./asan -o b s.asm > out 2> err
[ $? = 1 ] && ! grep -q Sanitizer err || bad "$(grep -m1 ERROR err)"
''')

seed("c12-insert", "C12", "memory runs out while a label is defined",
     "a label that cannot be stored is reported, and the run succeeds",
     [("src/main.c", "				            args.src_file, -1);\n			if (IS_ERROR(return_code))\n				ABORT_ASSEMBLY();", "				            args.src_file, -1);\n			if (return_code == ERROR_LABEL_REDEFINITION ||\n			    return_code == ERROR_TOO_BIG_ADDRESS)\n				ABORT_ASSEMBLY();")], r'''
cat > f.c <<'E'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
void *calloc(size_t n, size_t m)
{
	static void *(*real)(size_t, size_t);
	if (!real)
		real = dlsym(RTLD_NEXT, "calloc");
	if (n * m == 41)
		return NULL;
	return real(n, m);
}
E
gcc -shared -fPIC -o f.so f.c || exit 2
printf 'NOP\nA234567890B234567890C234567890D234567890 NOP\nNOP\n' > s.asm
LD_PRELOAD=$PWD/f.so timeout 20 "$G" -o b s.asm > out 2> err
[ $? = 1 ] || bad "a label that could not be stored: $(tail -3 out)"
''')

seed("c16-abort", "C16", "a run that is given up because of an error",
     "the lexer's tokens are not released when a line is rejected",
     [("src/main.c", "	if (lexer)\n		destroy_lexer(lexer);\n	if (tk)\n		destroy_token(tk);\n	if (instr)\n		destroy_instruction(instr);\n	if (symtab)\n		destroy_symbol_table(symtab);\n	if (unresolved)\n		destroy_unresolved(unresolved);\n	return EXIT_FAILURE;", "	if (lexer)\n		free(lexer);\n	if (tk)\n		destroy_token(tk);\n	if (instr)\n		destroy_instruction(instr);\n	if (symtab)\n		destroy_symbol_table(symtab);\n	if (unresolved)\n		destroy_unresolved(unresolved);\n	return EXIT_FAILURE;")], r'''
for t in 'NOP\n' 'LDA\n' 'NOP\nJMP L\n'; do
	printf "$t" > s.asm
	valgrind -q --leak-check=full --error-exitcode=9 "$G" -o b s.asm > out 2> err
	[ $? != 9 ] || bad "$t: $(grep -m1 lost err)"
done
''')

seed("c06-zero", "C06", "a reference to a label that is defined later with the value 0",
     "a forward reference to address 0 is taken for a missing definition",
     [("src/main.c", "		dest_pc = search_symbol(symtab, ref->label);\n		if (IS_ERROR(dest_pc)) {", "		dest_pc = search_symbol(symtab, ref->label);\n		if (dest_pc <= 0) {")], r'''
asm 'JMP L\nL = $1\n'
[ "$(hex)" = 4c0100 ] || bad "bytes $(hex)"
asm 'JMP L\nL = $0\n'
[ $rc = 0 ] && [ "$(hex)" = 4c0000 ] || bad "status $rc, bytes $(hex)"
''')

# -- I/O failures, isolation of lines, termination -------------------------------------------
seed("c18-early", "C18", "output that can only be found unwritable when it is flushed",
     "success is announced before the output has been flushed",
     [("src/main.c", "	int dest_pc;\n	for (int i = 0; i < unresolved->curr; i++) {\n		ref = unresolved->refs[i];", "	// the totals are known now\n	printf(\"Assembly successful.\\n\");\n	printf(\"%i (0x%04x) bytes assembled.\\n\", total_bytes, total_bytes);\n	int dest_pc;\n	for (int i = 0; i < unresolved->curr; i++) {\n		ref = unresolved->refs[i];"),
      ("src/main.c", "	printf(\"Assembly successful.\\n\");\n	printf(\"%i (0x%04x) bytes assembled.\\n\", total_bytes, total_bytes);\n	printf(\"%i symbols.\\n\", symtab->count);", "	printf(\"%i symbols.\\n\", symtab->count);")], r'''
asm 'NOP\n'
grep -q successful out || bad "no success"
timeout 20 "$G" -o /dev/full s.asm > out 2> err
[ $? = 1 ] || bad "status for a full disk"
grep -q successful out && bad "success announced for output that was not written"
true
''')

seed("c19-status", "C19", "an accumulator operand after a branch or jump, above $80",
     "an accumulator operand is handled with the status of the operand before it",
     [("src/main.c", "	int operand_status;\n", "	int operand_status = PARSER_SUCCESS;\n"),
      ("src/main.c", "		operand_status = parse_operand(lexer, instr, operand,\n		                               symtab);", "		// an accumulator needs no look at the symbols\n		if (!operand || operand->type != TOKEN_ACCUMULATOR)\n			operand_status = parse_operand(lexer, instr, operand,\n			                               symtab);")], r'''
asm 'LDA #$1\nASL A\nL NOP\n'
[ "$(hex)" = a9010aea ] || bad "bytes $(hex)"
asm '* = $200\nL NOP\nBNE L\nASL A\n'
[ $rc = 0 ] && [ "$(hex | tail -c 8)" = ead0fd0a ] || bad "status $rc, bytes $(hex | tail -c 8)"
''')

seed("c23-literal", "C23", "a literal of 256 characters or more",
     "the digits behind the 256th are scanned forever",
     [("src/lexer.c", "			num_chars++;\n			curr++;\n		} else if", "			if (num_chars < 256) {\n				num_chars++;\n				curr++;\n			}\n		} else if")], r'''
for n in 3 62 250 260; do
	asm "LDA #\$$(printf '0%.0s' $(seq $n))2A\n"
	[ $rc = 0 ] || bad "$n zeros: status $rc"
done
''')

seed("c23-full", "C23", "1361 labels, then a name that is not among them",
     "a large table may fill up, and the search for an absent name goes round forever",
     [("src/symbol_table.c", "	if (load > 50) {", "	// large tables need not stay half empty\n	if (load > (symtab->size > 1000 ? 100 : 50)) {")], r'''
for n in 17 700 1500; do
	for i in $(seq $n); do echo "L$i NOP"; done > s.asm
	rm -f b
	timeout 10 "$G" -o b s.asm > out 2> err
	[ $? = 0 ] || bad "$n labels: no end"
done
''')

seed("c23-self", "C23", "a forward jump to its own address",
     "forward references whose label is their own address are looked at forever",
     [("src/main.c", "	int dest_pc;\n	for (int i = 0; i < unresolved->curr; i++) {\n		ref = unresolved->refs[i];\n		dest_pc = search_symbol(symtab, ref->label);", "	int dest_pc;\n	int i = 0;\n	while (i < unresolved->curr) {\n		ref = unresolved->refs[i];\n		dest_pc = search_symbol(symtab, ref->label);\n		i += dest_pc != ref->pc;")], r'''
asm 'JMP L\nL = $10\n'
[ $rc = 0 ] || bad "status $rc"
asm 'JMP L\n* = $0\nL NOP\n'
[ $rc = 0 ] || bad "status $rc"
''')
