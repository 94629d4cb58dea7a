// Runs a script of dictionary and stack operations read from a file, one per line, and prints what the
// functions return. Numbers are decimal; keys and values are hexadecimal.
//   d ID SIZE TYPE    create a dictionary      i ID KEY VALUE   insert (the result is remembered)
//   s ID KEY          search                   x ID KEY         delete
//   n ID              number of elements       e ID             all entries
//   v N               the result of the N-th insert             f ID  destroy
//   D ID SIZE         create a stack           P ID VALUE       push
//   O ID              pop                      T ID             top
//   I ID INDEX        item                     N ID             index
//   C ID              clear                    F ID             free
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "dictionary.h"
#include "pasm.h"
#include "stacks.h"

static std::map<int, dictionary_ptr> dicts;
static std::map<int, stack_ptr> stacks;
static std::vector<std::pair<void*, int>> results;

static std::string unhex(const char* s)
{
    std::string r;
    for (; s[0] && s[1]; s += 2)
    {
        char b[3] = { s[0], s[1], 0 };
        r += static_cast<char>(strtol(b, nullptr, 16));
    }
    return r;
}

static void show(const void* p, long n)
{
    if (p == nullptr)
    {
        puts("-");
        return;
    }
    auto* b = static_cast<const unsigned char*>(p);
    for (long k = 0; k < n; k++)
        printf("%02x", b[k]);
    puts("");
}

static dictionary_ptr shown;

static int entry(element_ptr e, FILE*)
{
    if (shown->key_type == 0)
    {
        printf("k");
        for (const char* k = static_cast<char*>(e->key); *k; k++)
            printf("%02x", *k & 0xff);
    }
    else
        printf("k%zx", reinterpret_cast<size_t>(e->key));
    printf(" ");
    show(e->value, shown->element_size);
    return 0;
}

int main(int argc, char** argv)
{
    if (argc < 2 || !freopen(argv[1], "r", stdin))
        return 1;
    console = stdout;
    console_error = stdout;
    char* line = nullptr;
    size_t cap = 0;
    std::string a, b;
    while (getline(&line, &cap, stdin) > 0)
    {
        char op = line[0];
        std::vector<std::string> w;
        for (char* t = strtok(line + 1, " \n"); t; t = strtok(nullptr, " \n"))
            w.emplace_back(t);
        const int id = w.empty() ? 0 : atoi(w[0].c_str());
        void* key = nullptr;
        if (strchr("isx", op))
        {
            // keys are marked with a first letter, as they may be empty
            if (dicts[id]->key_type == 0)
            {
                a = unhex(w[1].c_str() + 1);
                key = const_cast<char*>(a.c_str());
            }
            else
                key = reinterpret_cast<void*>(strtoull(w[1].c_str() + 1, nullptr, 16));
        }
        switch (op)
        {
        case 'd': dicts[id] = dict_create(atoi(w[1].c_str()), atoi(w[2].c_str())); break;
        case 'i':
        {
            b = unhex(w[2].c_str());
            void* p = dict_insert(&dicts[id], key, const_cast<char*>(b.data()));
            results.emplace_back(p, static_cast<int>(b.size()));
            show(p, static_cast<long>(b.size()));
            break;
        }
        case 's': show(dict_search(dicts[id], key), dicts[id]->element_size); break;
        case 'x': dict_delete(dicts[id], key); break;
        case 'n': printf("%ld\n", dicts[id]->number_elements); break;
        case 'e':
            shown = dicts[id];
            dump_dictionary(shown, entry, stdout);
            puts(".");
            break;
        case 'v': show(results[id].first, results[id].second); break;
        case 'f': dict_destroy(dicts[id]); break;
        case 'D': stacks[id] = create_stack(atoi(w[1].c_str())); break;
        case 'P':
            b = unhex(w[1].c_str());
            printf("%ld\n", stacks[id]->push(stacks[id]->instance, b.data()));
            break;
        case 'O': show(stacks[id]->pop(stacks[id]->instance), stacks[id]->instance->item_size); break;
        case 'T': show(stacks[id]->top(stacks[id]->instance), stacks[id]->instance->item_size); break;
        case 'I': show(stacks[id]->item_at(stacks[id]->instance, atol(w[1].c_str())), stacks[id]->instance->item_size); break;
        case 'N': printf("%ld\n", stacks[id]->instance->index); break;
        case 'C': stacks[id]->clear(stacks[id]->instance); break;
        case 'F': free_stack(stacks[id]); break;
        default: printf("?\n");
        }
    }
    return 0;
}
