#pragma once
#include "sim.h"
#include "os.h"
#include <log4cpp/Category.hh>
#include <log4cpp/CategoryStream.hh>
#include <log4cpp/FixedContextCategory.hh>
#include <log4cpp/AppenderSkeleton.hh>
#include <log4cpp/LayoutAppender.hh>
#include <log4cpp/StringQueueAppender.hh>
#include <log4cpp/OstreamAppender.hh>
#include <log4cpp/FileAppender.hh>
#include <log4cpp/RollingFileAppender.hh>
#include <log4cpp/PatternLayout.hh>
#include <log4cpp/BasicLayout.hh>
#include <log4cpp/SimpleLayout.hh>
#include <log4cpp/Filter.hh>
#include <log4cpp/SimpleConfigurator.hh>
#include <log4cpp/NDC.hh>
#include <log4cpp/Priority.hh>
#include <log4cpp/threading/Threading.hh>
#include <sstream>
#include <memory>
#include <string.h>

namespace log4cpp { CategoryStream& eol(CategoryStream&); CategoryStream& left(CategoryStream&); }   // friends only in the header
namespace lh {
static const int PRI[] = {log4cpp::Priority::EMERG, log4cpp::Priority::ALERT, log4cpp::Priority::CRIT, log4cpp::Priority::ERROR, log4cpp::Priority::WARN,
                          log4cpp::Priority::NOTICE, log4cpp::Priority::INFO, log4cpp::Priority::DEBUG, log4cpp::Priority::TRACE};
static const int NPRI = 9;
static const char* const PNAME[] = {"FATAL", "ALERT", "CRIT", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG", "TRACE"};
static const char* const NAMES[] = {"a", "a.b", "a.b.c", "a.d", "e", "e.f", "e.f.g.h", "Ubitrack.Events"};
static const int NNAMES = 8;

inline int pidx(int p) { for (int i = 0; i < NPRI; i++) if (PRI[i] == p) return i; return -1; }
inline std::string parent_name(const std::string& n) { size_t k = n.rfind('.'); return k == std::string::npos ? std::string() : n.substr(0, k); }

inline void logva_(log4cpp::Category& c, int p, const char* f, ...) { va_list va; va_start(va, f); c.logva(p, f, va); va_end(va); }
// log through one of the public entry points
inline void log_via(log4cpp::Category& c, int p, const std::string& m, int api) {
    using namespace log4cpp;
    switch (api) {
    default:
    case 0: c.log(p, m); return;
    case 1: logva_(c, p, "%s", m.c_str()); return;
    case 2: c << p << m; return;
    case 3: c.getStream(p) << m.substr(0, m.size() / 2) << m.substr(m.size() / 2); return;
    case 4: { CategoryStream s = c.getStream(p); s << m << CategoryStream::ENDLINE; return; }
    case 5:
        if (p == Priority::EMERG) c.emerg(m); else if (p == Priority::ALERT) c.alert(m); else if (p == Priority::CRIT) c.crit(m);
        else if (p == Priority::ERROR) c.error(m); else if (p == Priority::WARN) c.warn(m); else if (p == Priority::NOTICE) c.notice(m);
        else if (p == Priority::INFO) c.info(m); else if (p == Priority::DEBUG) c.debug(m); else c.trace(m);
        return;
    case 6: {
        const char* s = m.c_str();
        if (p == Priority::EMERG) c.emerg("%s", s); else if (p == Priority::ALERT) c.alert("%s", s); else if (p == Priority::CRIT) c.crit("%s", s);
        else if (p == Priority::ERROR) c.error("%s", s); else if (p == Priority::WARN) c.warn("%s", s); else if (p == Priority::NOTICE) c.notice("%s", s);
        else if (p == Priority::INFO) c.info("%s", s); else if (p == Priority::DEBUG) c.debug("%s", s); else c.trace("%s", s);
        return; }
    case 7: {
        if (p == Priority::EMERG) c.emergStream() << m; else if (p == Priority::ALERT) c.alertStream() << m; else if (p == Priority::CRIT) c.critStream() << m;
        else if (p == Priority::ERROR) c.errorStream() << m; else if (p == Priority::WARN) c.warnStream() << m; else if (p == Priority::NOTICE) c.noticeStream() << m;
        else if (p == Priority::INFO) c.infoStream() << m; else if (p == Priority::DEBUG) c.debugStream() << m; else c.getStream(p) << m;
        return; }
    case 8: c.log(p, m, "file.cpp", 42); return;
    case 9: c.log(p, "%d|%s|%5.2f", 17, m.c_str(), 3.25); return;       // decorated: see text_via
    case 10: c.getStream(p) << m << log4cpp::eol << log4cpp::CategoryStream::ENDLINE; return;
    case 11: c.getStream(p) << 17 << '|' << m << '|' << 3.25 << log4cpp::CategoryStream::ENDLINE; return;
    case 12: { log4cpp::CategoryStream s = c.getStream(p); s << 'w'; s.width(6); s << 42 << log4cpp::left; s.width(4); s << 7 << m; return; }
    }
}
inline std::string text_via(const std::string& m, int api) { return api == 9 ? "17|" + m + "| 3.25" : api == 11 ? "17|" + m + "|3.25" : api == 12 ? "w    427   " + m : m; }
static const int NAPI = 13;
}
