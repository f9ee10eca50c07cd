// Sources of the framework's I/O. Localities are processes, so each has its own serializers
#include "fw.hpp"
#define Serializer ProcessSerializer
#include "lue/framework/io/serializer.hpp"
#undef Serializer

namespace lue {

    template<typename Key, typename Generation>
    class Serializer
    {
        public:

            auto promise_for(Key const& key, Generation const generation) { return process().promise_for(key, generation); }

            auto contains(Key const& key, Generation const generation) { return process().contains(key, generation); }

            auto when_predecessor_done(Key const& key, Generation const generation)
            {
                return process().when_predecessor_done(key, generation);
            }

            auto when_done(Key const& key, Generation const generation) { return process().when_done(key, generation); }

        private:

            auto process() -> ProcessSerializer<Key, Generation>&
            {
                return _processes[hpx::sim::scheduler().locality()];
            }

            std::map<std::uint32_t, ProcessSerializer<Key, Generation>> _processes;
    };

}  // namespace lue

#include "../source/lue.cpp"
#include "../source/dataset.cpp"
#include <hdf5.h>

// Other tasks can run before and after the library is used, and libraries in different processes can't know about
// each other's open files
namespace {

    struct OpenFile
    {
            std::string name;
            bool writable;
            std::uint32_t locality;
    };

    std::map<hid_t, OpenFile> open_files;
    std::string conflict;

    void others()
    {
        auto& scheduler = hpx::sim::scheduler();
        if (scheduler.generator()() % 3 == 0) scheduler.yield();
    }

}  // Anonymous namespace

namespace fw {

    bool io_others{false};

    void io_reset()
    {
        open_files.clear();
        conflict.clear();
    }

    std::string const& io_conflict()
    {
        return conflict;
    }

    std::size_t io_nr_open_files()
    {
        return open_files.size();
    }

}  // namespace fw

extern "C" {

    hid_t __real_H5Fopen(char const* name, unsigned flags, hid_t access);
    herr_t __real_H5Fclose(hid_t id);
    herr_t __real_H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void*);
    herr_t __real_H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, void const*);

    hid_t __wrap_H5Fopen(char const* name, unsigned flags, hid_t access)
    {
        bool const writable = flags & H5F_ACC_RDWR;
        if (!fw::io_others) return __real_H5Fopen(name, flags, access);
        others();
        auto const locality = hpx::sim::scheduler().locality();
        for (auto const& [id, file] : open_files)
        {
            if (file.name == name && file.locality != locality && (writable || file.writable))
            {
                conflict = std::string("the file is opened for ") + (writable ? "writing" : "reading") + " by process " +
                           std::to_string(locality) + " while process " + std::to_string(file.locality) + " has it open for " +
                           (file.writable ? "writing" : "reading");
            }
        }
        hid_t const id = __real_H5Fopen(name, flags, access);
        if (id >= 0) open_files[id] = {name, writable, locality};
        others();
        return id;
    }

    herr_t __wrap_H5Fclose(hid_t id)
    {
        if (!fw::io_others) return __real_H5Fclose(id);
        others();
        open_files.erase(id);
        return __real_H5Fclose(id);
    }

    herr_t __wrap_H5Dread(hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, void* f)
    {
        if (fw::io_others) others();
        return __real_H5Dread(a, b, c, d, e, f);
    }

    herr_t __wrap_H5Dwrite(hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, void const* f)
    {
        if (fw::io_others) others();
        return __real_H5Dwrite(a, b, c, d, e, f);
    }
}
