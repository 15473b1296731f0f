#pragma once
struct Scenario {
  const char* id;
  void (*run)();          // executed once per phase in its own forked process
  const char* what;
};
extern const Scenario scenarios[];
extern const int nscenarios;
