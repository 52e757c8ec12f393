// Small pieces shared by the checks of the services.
#pragma once
#include <Smp/Exception.h>
#include <Smp/Services/IEventManager.h>
#include <Smp/Services/ILogger.h>
#include <Xsmp/Component.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/Model.h>
#include <Xsmp/Service.h>
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Simulator.h>
#include <functional>
#include <string>
#include <vector>
struct StubLogger : public Xsmp::Service, public virtual Smp::Services::ILogger { // counts, keeps nothing
  using Xsmp::Service::Service; int errors = 0; bool counting = true;
  Smp::Services::LogMessageKind QueryLogMessageKind(Smp::String8) override { return 0; }
  void Log(const Smp::IObject *, Smp::String8, Smp::Services::LogMessageKind kind) override { if (counting && kind == LMK_Error) ++errors; }
};
struct EpModel : public Xsmp::Model, public virtual Xsmp::EntryPointPublisher { using Xsmp::Model::Model; };
template <class T, class S> T *addService(S &sim, const char *name) { auto *s = new T(name, "", &sim, &sim); sim.AddService(s); return s; }
