// Stand-in for njoy's Log: messages go nowhere.
#pragma once
namespace njoy {
struct Log {
  template <class... A> static void info(const A&...) {}
  template <class... A> static void warning(const A&...) {}
  template <class... A> static void error(const A&...) {}
};
}
