/* The log call of the gateway, replaced in the native replay as it is in the engine. */
namespace MQTTSNGW { class Process { public: void putLog(const char*, ...); }; void Process::putLog(const char*, ...) {} }
