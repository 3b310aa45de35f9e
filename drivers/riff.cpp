// Headers of sound files
#include "common.hpp"
#include "formats/FWSE.hpp"
#include "formats/MSF.hpp"
#include "formats/VAG.hpp"
#include "formats/WAVE.hpp"
#include "formats/XVAG.hpp"
#ifndef ONLY_HEADERS
using namespace drv;
alignas(16) static unsigned char mem[1 << 16];

template <class T> T &put(const bytes &b) {
  std::memset(mem, 0, sizeof(mem));
  std::memcpy(mem, b.data(), b.size());
  return *reinterpret_cast<T *>(mem);
}
static size_t at(const void *p) { return (const unsigned char *)p - mem; }
#define F(x) r.push_back(jval(h.x))
int main() {
  return loop([&](Line &l, Out &o) {
    std::string op = l.word();
    o.i("ok", 1);
    if (op == "riff") {
      RIFFHeader h((uint32)l.unum());
      o.val("out", h);
    } else if (op == "fmt") {
      WAVE_fmt h((WAVE_FORMAT)l.num());
      o.val("out", h);
    } else if (op == "calc") {
      WAVE_fmt &h = put<WAVE_fmt>(l.hex());
      h.CalcData();
      o.val("out", h);
    } else if (op == "data") {
      WAVE_data h((uint32)l.unum());
      o.val("out", h);
      o.i("at", h.GetData() - reinterpret_cast<char *>(&h));
    } else if (op == "walk") {
      bytes b = l.hex();
      RIFFHeader &h = put<RIFFHeader>(b);
      std::vector<long long> places, known;
      std::vector<std::string> ids;
      WAVEGenericHeader *c = reinterpret_cast<WAVEGenericHeader *>(&h + 1);
      for (size_t n = 0; n < 1000 && at(c) + 8 <= b.size(); n++, c = c->Next()) {
        places.push_back((long long)at(c));
        known.push_back(IsValidWaveChunk(*c));
        ids.push_back(jval(c->id));
      }
      o.raw("at", jints(places));
      o.raw("known", jints(known));
      o.raw("ids", jlist(ids));
    } else if (op == "loops") {
      WAVE_smpl &h = put<WAVE_smpl>(l.hex());
      o.i("at", (long long)at(h.GetSampleLoops()));
      std::vector<std::string> out;
      for (size_t i = 0; i < h.numSampleLoops; i++) {
        auto &h_ = h.GetSampleLoops()[i];
        std::vector<std::string> r;
        auto &h = h_;
        F(id), F(type), F(start), F(end), F(fraction), F(playCount);
        out.push_back(jlist(r));
      }
      o.raw("out", jlist(out));
    } else if (op == "read") {
      std::string k = l.word();
      bytes b = l.hex();
      std::vector<std::string> r;
      size_t size = 0;
#define KIND(name, T, ...)                                                     \
  if (k == name) {                                                             \
    T &h = put<T>(b);                                                          \
    size = sizeof(T);                                                          \
    __VA_ARGS__;                                                               \
  }
      KIND("riff", RIFFHeader, F(id), F(chunkSize), F(type))
      KIND("fmt", WAVE_fmt, F(id), F(chunkSize), F(format), F(channels), F(sampleRate), F(sampleCount), F(interleave), F(bitsPerSample))
      KIND("msadpcm", WAVE_fmt_MSADPCM, F(id), F(chunkSize), F(format), F(channels), F(sampleRate), F(sampleCount), F(interleave), F(bitsPerSample), F(extendedDataSize), F(extendedData))
      KIND("fact", WAVE_fact, F(id), F(chunkSize), F(uncompressedSize))
      KIND("smpl", WAVE_smpl, F(id), F(chunkSize), F(manufacturer), F(product), F(samplePeriod), F(MIDIUnityNote), F(MIDIPitchFraction), F(SMPTEFormat), F(SMPTEOffset), F(numSampleLoops), F(sampleLoopsSize))
      KIND("loop", WAVE_smpl::SampleLoop, F(id), F(type), F(start), F(end), F(fraction), F(playCount))
      KIND("fwse", FWSE, F(id), F(version), F(fileSize), F(bufferOffset), F(numChannels), F(numSamples), F(sampleRate), F(sampleDepth))
      KIND("msf", MSF, F(id), F(codec), F(numChannels), F(dataSize), F(sampleRate), F(flags), F(loopStart), F(loopDuration))
      KIND("vag", VAG, F(id), F(version), F(reserved), F(dataSize), F(sampleRate))
      KIND("xvag", XVAGHeader, F(id), F(size), F(numBlocks), F(flags))
      KIND("fmat", XVAGfmat, F(id), F(size), F(numChannels), F(format), F(numSamples), F(numSamples2), F(interleave), F(sampleRate), F(bufferSize))
      o.raw("out", jlist(r));
      o.i("size", (long long)size);
    }
  });
}
#endif
