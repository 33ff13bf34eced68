/* Runs the phases of the compiler up to register assignment on each file named on standard input
 * and prints the instruction lists before and after it. */
#include "freader/freader.h"
#include "immc/immc.h"
#include "immcgen/immcgen.h"
#include "lexer/lexer.h"
#include "parser/parser.h"
#include "regalloc/regalloc.h"
#include "resolver/resolver.h"
#include "x64gen/x64gen.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static void ope(ImmcOpe* b, ImmcOpe* a) {
    if (b == NULL) printf(" -");
    else if (b->type == IMMC_OPERAND_REG || b->type == IMMC_OPERAND_PTR)
        printf(" %c:%d:%d", b->type == IMMC_OPERAND_REG ? 'r' : 'p', b->reg->reg_id,
               a != NULL && a->type == b->type ? a->reg->reg_id : -99);
    else if (b->type == IMMC_OPERAND_LABEL) printf(" l:%s", b->label_name);
    else printf(" o");
}
static void one(char* file) {
    Error* err = NULL;
    Vector* errs = NULL;
    FILE* f = fopen(file, "r");
    FileReader* fr = new_freader(f);
    char* text = NULL;
    freaderret_assign(&text, &err, freader_read(fr));
    if (err) exit(3);
    Vector* toks = NULL;
    lexerret_assign(&toks, &err, lexer_read_ctokens(new_lexer(text)));
    if (err) exit(3);
    Ast* ast = NULL;
    parserret_assign(&ast, &err, parser_create_ast(new_parser(toks)));
    if (err) exit(3);
    Srt* srt = NULL;
    resolverret_assign(&srt, &errs, resolver_resolve_semantics(new_resolver(ast)));
    if (errs) exit(3);
    Vector* before = immcgen_generate_immcode(new_immcgen(srt));
    Vector *after = NULL, *live = NULL;
    regallocret_assign(&after, &live, regalloc_allocate_regs(new_regalloc(vector_copy(before), NUM_CALLER_SAVED_REGS)));
    int n = vector_size(before);
    if (vector_size(after) != n) exit(4);
    for (int i = 0; i < n; i++) {
        Immc *b = vector_at(before, i), *a = vector_at(after, i);
        if (b->type != a->type) exit(4);
        if (b->type == IMMC_LABEL) printf("%s %s\n", b->label->type == IMMC_LABEL_FUNCTION ? "fun" : b->label->type == IMMC_LABEL_VARIABLE ? "var" : "lab", b->label->name);
        if (b->type != IMMC_INST) continue;
        if (b->inst->type != a->inst->type) exit(4);
        int t = b->inst->type;
        const char* k = "ins";
        if (t == IMMC_INST_JMP) k = "jmp";
        else if (t == IMMC_INST_JEQ || t == IMMC_INST_JNEQ || t == IMMC_INST_JGT || t == IMMC_INST_JGEQ || t == IMMC_INST_JLT || t == IMMC_INST_JLEQ) k = "jcc";
        else if (t == IMMC_INST_CALL) k = "call";
        else if (t == IMMC_INST_LEAVE) k = "leave";
        printf("%s", k);
        ope(b->inst->dst, a->inst->dst);
        ope(b->inst->fst_src, a->inst->fst_src);
        ope(b->inst->snd_src, a->inst->snd_src);
        printf("\n");
    }
    fflush(stdout);
    exit(0);
}
int main(void) {
    char line[4096];
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        printf("file %s\n", line);
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) one(line);
        int st;
        waitpid(p, &st, 0);
        printf("end %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
        fflush(stdout);
    }
    return 0;
}
