/* Runs the real lexer on each text of standard input (one hexadecimal line each) and prints its tokens. */
#include "ctoken/ctoken.h"
#include "lexer/lexer.h"
#include "vector/vector.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static struct { CTokenType t; const char* s; } names[] = {
    {CTOKEN_KEYWORD_BREAK, "break"}, {CTOKEN_KEYWORD_CASE, "case"}, {CTOKEN_KEYWORD_CHAR, "char"},
    {CTOKEN_KEYWORD_CONTINUE, "continue"}, {CTOKEN_KEYWORD_DEFAULT, "default"}, {CTOKEN_KEYWORD_ELSE, "else"},
    {CTOKEN_KEYWORD_ENUM, "enum"}, {CTOKEN_KEYWORD_FOR, "for"}, {CTOKEN_KEYWORD_IF, "if"}, {CTOKEN_KEYWORD_INT, "int"},
    {CTOKEN_KEYWORD_LONG, "long"}, {CTOKEN_KEYWORD_RETURN, "return"}, {CTOKEN_KEYWORD_SIZEOF, "sizeof"},
    {CTOKEN_KEYWORD_STRUCT, "struct"}, {CTOKEN_KEYWORD_SWITCH, "switch"}, {CTOKEN_KEYWORD_TYPEDEF, "typedef"},
    {CTOKEN_KEYWORD_UNSIGNED, "unsigned"}, {CTOKEN_KEYWORD_VOID, "void"}, {CTOKEN_KEYWORD_WHILE, "while"},
    {CTOKEN_LBRACKET, "["}, {CTOKEN_RBRACKET, "]"}, {CTOKEN_LPAREN, "("}, {CTOKEN_RPAREN, ")"}, {CTOKEN_LBRACE, "{"},
    {CTOKEN_RBRACE, "}"}, {CTOKEN_DOT, "."}, {CTOKEN_ARROW, "->"}, {CTOKEN_PLUS_PLUS, "++"}, {CTOKEN_MINUS_MINUS, "--"},
    {CTOKEN_AND, "&"}, {CTOKEN_ASTERISK, "*"}, {CTOKEN_PLUS, "+"}, {CTOKEN_MINUS, "-"}, {CTOKEN_TILDE, "~"},
    {CTOKEN_EXCLAM, "!"}, {CTOKEN_SLASH, "/"}, {CTOKEN_PERCENT, "%"}, {CTOKEN_LESS_LESS, "<<"}, {CTOKEN_GREATER_GREATER, ">>"},
    {CTOKEN_LESS, "<"}, {CTOKEN_GREATER, ">"}, {CTOKEN_LESS_EQUAL, "<="}, {CTOKEN_GREATER_EQUAL, ">="},
    {CTOKEN_EQUAL_EQUAL, "=="}, {CTOKEN_EXCLAM_EQUAL, "!="}, {CTOKEN_CARET, "^"}, {CTOKEN_VBAR, "|"}, {CTOKEN_AND_AND, "&&"},
    {CTOKEN_VBAR_VBAR, "||"}, {CTOKEN_QUESTION, "?"}, {CTOKEN_COLON, ":"}, {CTOKEN_SEMICOLON, ";"}, {CTOKEN_EQUAL, "="},
    {CTOKEN_ASTERISK_EQUAL, "*="}, {CTOKEN_SLASH_EQUAL, "/="}, {CTOKEN_PERCENT_EQUAL, "%="}, {CTOKEN_PLUS_EQUAL, "+="},
    {CTOKEN_MINUS_EQUAL, "-="}, {CTOKEN_LESS_LESS_EQUAL, "<<="}, {CTOKEN_GREATER_GREATER_EQUAL, ">>="}, {CTOKEN_AND_EQUAL, "&="},
    {CTOKEN_CARET_EQUAL, "^="}, {CTOKEN_VBAR_EQUAL, "|="}, {CTOKEN_COMMA, ","}, {CTOKEN_EOF, "$"},
};

static char* line;
static size_t cap;
static int nib(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void hex(const char* s, int n) { for (int i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]); }

static const char* tyname(IntegerLiteralType t) {
    switch (t) {
    case INTEGER_INT: return "int";
    case INTEGER_UNSIGNED_INT: return "uint";
    case INTEGER_LONG: return "long";
    case INTEGER_UNSIGNED_LONG: return "ulong";
    case INTEGER_LONGLONG: return "llong";
    case INTEGER_UNSIGNED_LONGLONG: return "ullong";
    default: return "?";
    }
}

int main(void) {
    ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') n--;
        char* s = malloc(n / 2 + 1);
        for (int i = 0; i < n / 2; i++) s[i] = nib(line[2 * i]) << 4 | nib(line[2 * i + 1]);
        s[n / 2] = 0;
        Lexer* lexer = new_lexer(s);
        Vector* toks = NULL;
        Error* err = NULL;
        lexerret_assign(&toks, &err, lexer_read_ctokens(lexer));
        delete_lexer(lexer);
        if (err != NULL) {
            puts("reject");
            delete_error(err);
        } else {
            printf("ok");
            for (int i = 0; i < vector_size(toks); i++) {
                CToken* t = vector_at(toks, i);
                printf(" ");
                if (t->type == CTOKEN_IDENT) printf("id:"), hex(t->ident_name, strlen(t->ident_name));
                else if (t->type == CTOKEN_INT) printf("int:%s:%llu", tyname(t->iliteral->type), iliteral_isunsigned(t->iliteral) ? t->iliteral->unsigned_value : (unsigned long long)t->iliteral->signed_value);
                else if (t->type == CTOKEN_CHAR) printf("chr:%d", (int)(unsigned char)t->iliteral->signed_value);
                else if (t->type == CTOKEN_STRING) printf("str:"), hex(t->sliteral->value, t->sliteral->size);
                else {
                    int k = 0;
                    while (k < (int)(sizeof names / sizeof *names) && names[k].t != t->type) k++;
                    printf("%s", k < (int)(sizeof names / sizeof *names) ? names[k].s : "?unknown");
                }
            }
            puts("");
            delete_vector(toks);
        }
        fflush(stdout);
    }
    return 0;
}
