/* The client library of the gateway tester, with what an application must define. */
#include "sym.h"
#include "LMqttsnClientApp.h"
#include "LMqttsnClient.h"
#include "LScreen.h"
#include "Payload.h"
#include <string.h>
#include <stdlib.h>
#define A(c, l) sym_assert((c), l)
using namespace linuxAsyncClient;
#ifndef TESTER_TASKS
TaskList theTaskList[] = { { 0, 0, 0, 0 } };
TestList theTestList[] = { { 0, 0, 0 } };
#endif
void setup(void) {}
namespace linuxAsyncClient {      /* what the client shows is not looked at */
LScreen::LScreen() {} LScreen::~LScreen() {} void LScreen::clear(void) {} void LScreen::display(const char*, ...) {} void LScreen::prompt(const char*, ...) {} bool LScreen::checkKeyIn(char*) { return false; }
}
