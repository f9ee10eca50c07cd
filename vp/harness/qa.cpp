// Q03: recording of scalability experiments. The clocks are replaced: time only passes when the case says so.
#include "pt.hpp"
#include "lue/qa/scalability/instrument/array_experiment.hpp"
#include "lue/qa/scalability/instrument/io.hpp"
#include <boost/json/src.hpp>
#include <chrono>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iterator>
#include <optional>
#include <time.h>


namespace {

    bool fake{false};
    std::int64_t system_time{0};  // ns since the epoch
    std::int64_t steady_time{0};  // ns since something

    std::int64_t real_time(clockid_t id)
    {
        timespec t{};
        clock_gettime(id, &t);
        return t.tv_sec * 1000000000L + t.tv_nsec;
    }

}  // Anonymous namespace


namespace std::chrono {
    inline namespace _V2 {

        system_clock::time_point system_clock::now() noexcept
        {
            return time_point{duration{fake ? system_time : real_time(CLOCK_REALTIME)}};
        }

        steady_clock::time_point steady_clock::now() noexcept
        {
            return time_point{duration{fake ? steady_time : real_time(CLOCK_MONOTONIC)}};
        }

    }  // namespace _V2
}  // namespace std::chrono


namespace {

    using pt::Case;
    using pt::str;
    namespace qa = lue::qa;
    namespace json = boost::json;


    struct FakeClocks
    {
            FakeClocks()
            {
                fake = true;
            }

            ~FakeClocks()
            {
                fake = false;
            }
    };


    struct Zone
    {
            char const* name;
            // East of Greenwich, minutes. Two in case of daylight saving time
            int offset;
            int offset2;
    };


    Zone const zones[] = {
        {"UTC0", 0, 0},
        {"<+01>-1", 60, 60},
        {"<-05>5", -300, -300},
        {"<+0530>-5:30", 330, 330},
        {"<-0930>9:30", -570, -570},
        {"<+1245>-12:45", 765, 765},
        {"<+14>-14", 840, 840},
        {"<-12>12", -720, -720},
        {"CET-1CEST,M3.5.0,M10.5.0/3", 60, 120},
        {"EST5EDT,M3.2.0,M11.1.0", -300, -240},
    };


    std::int64_t days_from_civil(std::int64_t y, unsigned m, unsigned d)
    {
        // Count days the slow way: whole years, months, days
        auto leap = [](std::int64_t year) { return (year % 4 == 0 && year % 100 != 0) || year % 400 == 0; };
        static int const lengths[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        std::int64_t days = 0;
        for (std::int64_t year = 1970; year < y; ++year)
        {
            days += leap(year) ? 366 : 365;
        }
        for (unsigned month = 1; month < m; ++month)
        {
            days += lengths[month - 1] + (month == 2 && leap(y) ? 1 : 0);
        }
        return days + d - 1;
    }


    void same_time(Case& c, std::string const& text, std::int64_t expected, Zone const& zone, std::string const& what)
    {
        // yyyy-mm-ddThh:mm:ss+zzzz
        std::string const where = what + ": " + text;
        std::string const form = "dddd-dd-ddTdd:dd:ddsdddd";
        c.equal(text.size(), form.size(), where + ": number of characters");
        for (std::size_t i = 0; i < form.size(); ++i)
        {
            bool const good = form[i] == 'd'   ? (text[i] >= '0' && text[i] <= '9')
                              : form[i] == 's' ? (text[i] == '+' || text[i] == '-')
                                               : text[i] == form[i];
            c.check(good, where + " is not formatted according to ISO 8601");
        }
        auto number = [&](int at, int n) { return std::stoi(text.substr(at, n)); };
        int const month = number(5, 2), day = number(8, 2), hour = number(11, 2), minute = number(14, 2),
                  second = number(17, 2), zone_hour = number(20, 2), zone_minute = number(22, 2);
        c.check(
            month >= 1 && month <= 12 && day >= 1 && day <= 31 && hour < 24 && minute < 60 && second < 60 &&
                zone_minute < 60,
            where + " is no time");
        int const offset = (text[19] == '-' ? -1 : 1) * (60 * zone_hour + zone_minute);
        c.check(offset == zone.offset || offset == zone.offset2, where + ": offset of time zone " + zone.name);
        std::int64_t const seconds =
            86400 * days_from_civil(number(0, 4), month, day) + 3600 * hour + 60 * minute + second - 60 * offset;
        c.equal(seconds, expected, where + ": seconds since the epoch");
    }


    struct Interval
    {
            std::int64_t system{0};
            std::int64_t start{0};
            std::int64_t stop{0};
    };


    //! Let time pass. The system clock may be set back, the steady clock not
    void pass(Case& c)
    {
        std::int64_t d{};
        switch (c.draw(5))
        {
            case 0:
                break;
            case 1:
                d = static_cast<std::int64_t>(c.draw(2000000));
                break;
            case 2:
                // Around a number of milliseconds
                d = 1000000 * static_cast<std::int64_t>(c.draw(5000)) + c.pick({-1, 0, 1});
                d = d < 0 ? 0 : d;
                break;
            case 3:
                d = static_cast<std::int64_t>(c.draw(100)) * 1000000000;
                break;
            case 4:
                d = static_cast<std::int64_t>(c.draw(40)) * 86400 * 1000000000 + static_cast<std::int64_t>(c.draw(999999999));
                break;
            default:
                d = static_cast<std::int64_t>(c.draw(5000000000));
        }
        steady_time += d;
        system_time += d;
        if (c.chance(5))
        {
            system_time += c.integer<std::int64_t>(-3600, 3600) * 1000000000;
            if (system_time < 0)
            {
                system_time = 0;
            }
        }
    }


    qa::Count count(Case& c)
    {
        return c.boolean() ? c.draw(1000) : c.any64();
    }


    void check_number(Case& c, json::value const& value, std::uint64_t expected, std::string const& what)
    {
        c.check(value.is_number(), what + " is no number");
        c.check(
            (value.is_uint64() && value.get_uint64() == expected) ||
                (value.is_int64() && value.get_int64() >= 0 && static_cast<std::uint64_t>(value.get_int64()) == expected),
            what + ": got " + json::serialize(value) + ", expected " + str(expected));
    }


    struct Recorder
    {
            Recorder(qa::Count nr_workers, qa::Shape const& array_shape, qa::Shape const& partition_shape):
                experiment{nr_workers, array_shape, partition_shape},
                nr_workers{nr_workers},
                array_shape{array_shape},
                partition_shape{partition_shape}
            {
            }

            qa::ArrayExperiment experiment;
            qa::Count nr_workers;
            qa::Shape array_shape;
            qa::Shape partition_shape;
            Interval interval;
            std::vector<Interval> runs;
    };


    std::int64_t nr_milliseconds(Interval const& interval)
    {
        return (interval.stop - interval.start) / 1000000;
    }


    void check_file(Case& c, std::string const& path, Recorder const& model, Zone const& zone)
    {
        std::ifstream stream(path);
        std::string const text{std::istreambuf_iterator<char>(stream), {}};
        json::value root;
        try
        {
            root = json::parse(text);
        }
        catch (std::exception const& exception)
        {
            c.fail("the results are no JSON: " + std::string(exception.what()) + ": " + text);
        }
        auto member = [&](json::value const& object, char const* name) -> json::value const&
        {
            c.check(object.is_object() && object.get_object().contains(name), std::string("no member ") + name + ": " + text);
            return object.at(name);
        };
        auto time = [&](json::value const& object, Interval const& interval, std::string const& what)
        {
            auto const& start = member(object, "start");
            c.check(start.is_string(), "start is no string");
            same_time(c, std::string(start.get_string()), interval.system / 1000000000, zone, what + ": start");
            check_number(c, member(object, "duration"), nr_milliseconds(interval), what + ": duration");
        };
        auto shape = [&](char const* name, qa::Shape const& expected)
        {
            auto const& value = member(member(root, "task"), name);
            c.check(value.is_array() && value.get_array().size() == 2, std::string(name) + " has no two extents");
            check_number(c, value.get_array()[0], std::get<0>(expected), std::string(name) + ": first extent");
            check_number(c, value.get_array()[1], std::get<1>(expected), std::string(name) + ": second extent");
        };
        auto const& unit = member(root, "unit");
        c.check(unit.is_string() && unit.get_string() == "millisecond", "unit is not millisecond");
        time(root, model.interval, "experiment");
        check_number(c, member(member(root, "environment"), "nr_workers"), model.nr_workers, "number of workers");
        shape("array_shape", model.array_shape);
        shape("partition_shape", model.partition_shape);
        auto const& timings = member(root, "timings");
        c.check(timings.is_array(), "timings is no array");
        c.equal(timings.get_array().size(), model.runs.size(), "number of runs saved");
        for (std::size_t i = 0; i < model.runs.size(); ++i)
        {
            time(timings.get_array()[i], model.runs[i], "run " + str(i));
        }
    }


    void same_run(Case& c, qa::Run const& run, Interval const& expected, std::string const& what)
    {
        using std::chrono::nanoseconds, std::chrono::milliseconds, std::chrono::seconds;
        c.equal(run.start_time_point().time_since_epoch().count(), expected.system, what + ": start");
        std::int64_t const duration = expected.stop - expected.start;
        c.equal(run.duration<nanoseconds>().count(), duration, what + ": nanoseconds");
        c.equal(run.duration<milliseconds>().count(), duration / 1000000, what + ": milliseconds");
        c.equal(run.duration<seconds>().count(), duration / 1000000000, what + ": seconds");
    }


    void q03(Case& c)
    {
        Zone const& zone = zones[c.draw(std::size(zones) - 1)];
        setenv("TZ", zone.name, 1);
        tzset();
        FakeClocks const clocks;
        // 1970 - 2200
        system_time = static_cast<std::int64_t>(c.draw(7258118399)) * 1000000000 + static_cast<std::int64_t>(c.draw(999999999));
        if (c.chance(20))
        {
            system_time = system_time / 1000000000 * 1000000000 + (c.boolean() ? 0 : 999999999);
        }
        steady_time = static_cast<std::int64_t>(c.draw(1UL << 50));
        c.notes("zone ", zone.name, " system ", system_time, " steady ", steady_time);

        std::vector<Recorder> recorders;
        auto add_recorder = [&]()
        {
            qa::Count const nr_workers = count(c);
            qa::Shape const array_shape{count(c), count(c)};
            qa::Shape const partition_shape{count(c), count(c)};
            c.notes("experiment ", recorders.size(), ": ", nr_workers, " workers, array ", std::get<0>(array_shape), " x ",
                std::get<1>(array_shape), ", partition ", std::get<0>(partition_shape), " x ", std::get<1>(partition_shape));
            recorders.emplace_back(nr_workers, array_shape, partition_shape);
        };
        add_recorder();
        recorders[0].experiment.start();
        recorders[0].interval = {system_time, steady_time, steady_time};
        qa::Run run{};
        Interval interval{};
        bool started = false;
        std::size_t nr_saved = 0;
        std::size_t const nr_operations = c.size(2, 60);
        for (std::size_t i = 0; i < nr_operations; ++i)
        {
            pass(c);
            std::size_t const e = c.draw(recorders.size() - 1);
            auto& recorder = recorders[e];
            switch (c.draw(11))
            {
                case 0:
                case 1:
                case 2:
                {
                    // A run, the usual way
                    run = qa::Run{};
                    run.start();
                    interval = {system_time, steady_time, steady_time};
                    pass(c);
                    run.stop();
                    interval.stop = steady_time;
                    started = true;
                    recorder.experiment.add(run);
                    recorder.runs.push_back(interval);
                    c.notes("experiment ", e, ": run of ", interval.stop - interval.start, " ns");
                    break;
                }
                case 3:
                {
                    run.start();
                    interval = {system_time, steady_time, steady_time};
                    started = true;
                    c.note("start");
                    break;
                }
                case 4:
                {
                    if (started)
                    {
                        run.stop();
                        interval.stop = steady_time;
                        c.notes("stop after ", interval.stop - interval.start);
                    }
                    break;
                }
                case 5:
                {
                    if (started)
                    {
                        recorder.experiment.add(run);
                        recorder.runs.push_back(interval);
                        c.notes("experiment ", e, ": same run added");
                    }
                    break;
                }
                case 6:
                {
                    recorder.experiment.start();
                    recorder.interval = {system_time, steady_time, steady_time};
                    c.notes("experiment ", e, ": start");
                    break;
                }
                case 7:
                {
                    recorder.experiment.stop();
                    recorder.interval.stop = steady_time;
                    c.notes("experiment ", e, ": stop");
                    break;
                }
                case 8:
                {
                    if (recorders.size() < 3)
                    {
                        if (c.boolean())
                        {
                            add_recorder();
                            recorders.back().experiment.start();
                            recorders.back().interval = {system_time, steady_time, steady_time};
                        }
                        else
                        {
                            Recorder copy{recorder};
                            recorders.push_back(c.boolean() ? copy : std::move(copy));
                            c.notes("copy of experiment ", e);
                        }
                    }
                    break;
                }
                case 9:
                {
                    // Somewhere nothing can be stored
                    std::string const path = c.pick({c.path("nowhere/result.json"), c.scratch(), std::string("/dev/full")});
                    c.notes("experiment ", e, ": save to ", path == c.scratch() ? "a directory" : path == "/dev/full" ? path : "a missing directory");
                    std::optional<std::string> message;
                    try
                    {
                        qa::save_results(recorder.experiment, path);
                    }
                    catch (std::runtime_error const& exception)
                    {
                        message = exception.what();
                    }
                    c.check(message.has_value(), "saving results to " + path + " succeeds, although nothing can be stored there");
                    c.label("not writable");
                    break;
                }
                default:
                {
                    std::string const path = c.path(c.pick({"a.json", "b.json"}));
                    c.notes("experiment ", e, ": save");
                    qa::save_results(recorder.experiment, path);
                    check_file(c, path, recorder, zone);
                    ++nr_saved;
                    if (recorder.runs.size() > 1)
                    {
                        c.nontrivial();
                    }
                }
            }
        }
        for (auto const& recorder : recorders)
        {
            c.equal(recorder.experiment.nr_workers(), recorder.nr_workers, "number of workers");
            c.check(recorder.experiment.array_shape() == recorder.array_shape, "array shape differs");
            c.check(recorder.experiment.partition_shape() == recorder.partition_shape, "partition shape differs");
            same_run(c, recorder.experiment, recorder.interval, "experiment");
            c.equal(recorder.experiment.runs().size(), recorder.runs.size(), "number of runs");
            for (std::size_t i = 0; i < recorder.runs.size(); ++i)
            {
                same_run(c, recorder.experiment.runs()[i], recorder.runs[i], "run " + str(i));
            }
        }
        if (started)
        {
            same_run(c, run, interval, "last run");
        }
        if (zone.offset != zone.offset2)
        {
            c.label("daylight saving time");
        }
        if (nr_saved > 1)
        {
            c.label("saved several times");
        }
    }

}  // Anonymous namespace


int main(int argc, char** argv)
{
    std::vector<pt::Property> const properties{
        {"Q03",
            "a case is a history of 2-60 starts, stops and additions of runs to 1-3 experiments, with clocks that are "
            "controlled by the case, in one of ten time zones, and results saved to files or where nothing can be "
            "stored; non-trivial if results of several runs are saved",
            q03, 60000, 1500000},
    };
    return pt::main(argc, argv, properties);
}
