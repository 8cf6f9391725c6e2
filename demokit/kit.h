// Common parts of the demonstrations: datasets in a scratch directory, data made by hand
#include <arki/core/binary.h>
#include <arki/core/cfg.h>
#include <arki/core/time.h>
#include <arki/dataset.h>
#include <arki/dataset/reporter.h>
#include <arki/dataset/session.h>
#include <arki/matcher.h>
#include <arki/metadata.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/data.h>
#include <arki/metadata/inbound.h>
#include <arki/query.h>
#include <arki/runtime.h>
#include <arki/summary.h>
#include <arki/types/product.h>
#include <arki/types/origin.h>
#include <arki/types/reftime.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <unistd.h>

namespace fs = std::filesystem;
using namespace arki;

static fs::path scratch;
static bool failed = false;

static void check(bool ok, const std::string& what)
{
    if (!ok)
    {
        std::cerr << "FAILED: " << what << std::endl;
        failed = true;
    }
}

// "2020-01-01T00:00:00Z", product number, bytes
static std::shared_ptr<Metadata> make_md(const std::string& time, unsigned product, const std::string& data)
{
    auto md = std::make_shared<Metadata>();
    md->set(types::Reftime::createPosition(core::Time::create_iso8601(time)));
    md->set(types::Product::createGRIB1(200, 140, product));
    std::vector<uint8_t> buf(data.begin(), data.end());
    md->set_source_inline(DataFormat::GRIB, metadata::DataManager::get().to_data(DataFormat::GRIB, std::move(buf)));
    return md;
}

// a message with the given size (at least 8)
static std::string grib(size_t size, char fill = 'x')
{
    return "GRIB" + std::string(size - 8, fill) + "7777";
}

static std::shared_ptr<core::cfg::Section> config(const std::string& type, const std::string& name,
                                                  const std::string& extra = "")
{
    auto path = scratch / name;
    std::string txt = "name=" + name + "\ntype=" + type + "\nstep=daily\npath=" + path.native() + "\n";
    if (type == "iseg")
        txt += "format=grib\n";
    if (type != "simple")
        txt += "unique=reftime,origin,product,level,timerange,area\nindex=reftime,origin,product\n";
    txt += extra;
    fs::create_directories(path);
    return core::cfg::Section::parse(txt, "memory");
}

static metadata::InboundBatch import_mds(std::shared_ptr<dataset::Dataset> ds,
                                         std::vector<std::shared_ptr<Metadata>> mds,
                                         dataset::AcquireConfig cfg = dataset::AcquireConfig())
{
    metadata::InboundBatch batch;
    for (auto& md : mds)
        batch.add(md->clone());
    auto w = ds->create_writer();
    w->acquire_batch(batch, cfg);
    w->flush();
    return batch;
}

static uint64_t summary_count(std::shared_ptr<dataset::Dataset> ds, const std::string& q = "")
{
    Summary s;
    ds->create_reader()->query_summary(q, s);
    return s.count();
}

static unsigned data_count(std::shared_ptr<dataset::Dataset> ds, const std::string& q = "", bool with_data = false)
{
    unsigned n = 0;
    ds->create_reader()->query_data(query::Data(ds->session->matcher(q), with_data), [&](std::shared_ptr<Metadata> md) {
        if (with_data)
            md->get_data();
        ++n;
        return true;
    });
    return n;
}

static dataset::CheckerConfig writable()
{
    return dataset::CheckerConfig(std::make_shared<dataset::NullReporter>(), false);
}

static void demo();

int main()
{
    char tpl[] = "/tmp/arki-demo-XXXXXX";
    if (!mkdtemp(tpl))
        return 99;
    scratch = tpl;
    int rc  = 0;
    try
    {
        arki::init();
        demo();
    }
    catch (std::exception& e)
    {
        std::cerr << "exception: " << e.what() << std::endl;
        rc = 1;
    }
    fs::remove_all(scratch);
    return rc ? rc : failed;
}
