#include "scenario.h"
namespace w {
void run_c01(); void run_c02(); void run_c03(); void run_c04();
void run_c05(); void run_c06(); void run_c07(); void run_c08(); void run_c09(); void run_c10(); void run_c11(); void run_c12();
void run_c13(); void run_c14(); void run_c15(); void run_c16(); void run_c17(); void run_c18(); void run_c19();
}
const Scenario scenarios[] = {
    {"C01", w::run_c01, "concurrent evaluation"},
    {"C02", w::run_c02, "concurrent formula building, printing, dropping"},
    {"C03", w::run_c03, "concurrent parsing"},
    {"C04", w::run_c04, "append histories with memory exhaustion"},
    {"C05", w::run_c05, "specification files under I/O faults"},
    {"C06", w::run_c06, "torn specification files"},
    {"C07", w::run_c07, "allocation failure at every point of a call"},
    {"C08", w::run_c08, "the same call under different environments"},
    {"C09", w::run_c09, "snapshots"},
    {"C10", w::run_c10, "repeated failures"},
    {"C11", w::run_c11, "live monitor"},
    {"C12", w::run_c12, "readers and writers of one signal"},
    {"C13", w::run_c13, "lookups in live signals"},
    {"C14", w::run_c14, "resampling live signals"},
    {"C15", w::run_c15, "synchronizing live signals"},
    {"C16", w::run_c16, "stalled callers"},
    {"C17", w::run_c17, "work of long-running monitors"},
    {"C18", w::run_c18, "objects handed between threads"},
    {"C19", w::run_c19, "the process and the disk around calls"},
};
const int nscenarios = sizeof(scenarios) / sizeof(scenarios[0]);
