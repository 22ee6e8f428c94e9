// Stand-in for the deck reader (an assumed dependency of the code under contract)
#ifndef SINTEF_ECLIPSEGRIDPARSER_HEADER
#define SINTEF_ECLIPSEGRIDPARSER_HEADER
#include <vector>
#include <string>
#include <iostream>
#include <opm/core/utility/ErrorMacros.hpp>
#include <boost/date_time/gregorian/gregorian.hpp>
namespace Opm {
    typedef std::vector<std::vector<std::vector<double> > > table_t;
    struct TSTEP { std::vector<double> tstep_; };
    struct ROCK { std::vector<std::vector<double> > rock_compressibilities_; };
    struct ROCKTAB { table_t rocktab_; };
    class EclipseGridParser {
    public:
        TSTEP tstep; ROCK rock; ROCKTAB rocktab; boost::gregorian::date* start; bool has_rock, has_rocktab;
        const TSTEP& getTSTEP() const { return tstep; }
        const ROCK& getROCK() const { return rock; }
        const ROCKTAB& getROCKTAB() const { return rocktab; }
        boost::gregorian::date getStartDate() const { return *start; }
        bool hasField(const char* name) const { return name[4] ? has_rocktab : has_rock; }
    };
}
#endif
