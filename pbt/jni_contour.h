// The Java side of a native contour finder
#pragma once
#include "fake_jni.h"
using namespace pbt; using namespace boofcv;
#define NAT(R,N) extern "C" R Java_org_boofcpp_contour_NativeChang2004_##N
NAT(void,native_1init)(JNIEnv*, jobject); NAT(void,native_1destroy)(JNIEnv*, jobject); NAT(void,native_1process)(JNIEnv*, jobject, jobject, jobject);
NAT(void,setSaveInnerContour)(JNIEnv*, jobject, jboolean); NAT(jboolean,isSaveInternalContours)(JNIEnv*, jobject);
NAT(void,setMinContour)(JNIEnv*, jobject, jint); NAT(jint,getMinContour)(JNIEnv*, jobject); NAT(void,setMaxContour)(JNIEnv*, jobject, jint); NAT(jint,getMaxContour)(JNIEnv*, jobject);
NAT(void,setConnectRule)(JNIEnv*, jobject, jobject); NAT(jobject,getConnectRule)(JNIEnv*, jobject);

struct JFinder {
    enum { BLOCK = 4000 };
    JObject self, storage, storage_data, packed, blocks, sets, four, eight, bil;
    struct Blob { int32_t id, ext; std::vector<int32_t> in; }; std::vector<Blob> blobs;
    struct Bil { JObject o; int64_t start = -1, length = -1, block = -1; };
    std::vector<std::unique_ptr<JObject>> block_arrays, garbage; std::vector<std::unique_ptr<Bil>> set_objs; size_t nblocks = 0, nsets = 0; int64_t queue_size = 0; FakeVM& vm;
    explicit JFinder(FakeVM& vm_) : vm(vm_) {
        self.cls = "org/boofcpp/contour/NativeChang2004"; self.prim["nativePtr"] = {"J",0}; self.ref["storagePoints"] = {"Lorg/ddogleg/struct/GrowQueue_I32;",&storage}; self.ref["packedPoints"] = {"Lboofcv/struct/PackedSetsPoint2D_I32;",&packed};
        storage.cls = "org/ddogleg/struct/GrowQueue_I32"; storage_data.make_array('I',10); storage.ref["data"] = {"[I",&storage_data}; storage.prim["size"] = {"I",0};
        cur = &storage_data;
        storage.methods["resize(I)V"] = [this](const std::vector<int64_t>& a) -> int64_t { if( a[0] < 0 ) { vm.broke("negative queue size"); return 0; } if( (uint64_t)a[0] > cur->length ) { garbage.emplace_back(new JObject()); cur = garbage.back().get(); cur->make_array('I',(uint32_t)a[0]); storage.ref["data"].second = cur; } storage.prim["size"].second = a[0]; return 0; };
        self.methods["addContour(II)V"] = [this](const std::vector<int64_t>& a) -> int64_t { Blob b; b.id = (int32_t)a[0]; b.ext = (int32_t)a[1]; for( int64_t i = 0; i < storage.prim["size"].second; i++ ) b.in.push_back(cur->as<S32>()[i]); blobs.push_back(b); return 0; };
        packed.cls = "boofcv/struct/PackedSetsPoint2D_I32"; packed.prim["blockLength"] = {"I",BLOCK}; packed.ref["blocks"] = {"Lorg/ddogleg/struct/FastQueue;",&blocks}; packed.ref["sets"] = {"Lorg/ddogleg/struct/FastQueue;",&sets}; blocks.cls = sets.cls = "org/ddogleg/struct/FastQueue";
        blocks.methods["resize(I)V"] = [this](const std::vector<int64_t>& a) -> int64_t { if( a[0] < 0 ) { vm.broke("negative queue size"); return 0; } while( block_arrays.size() < (size_t)a[0] ) { block_arrays.emplace_back(new JObject()); block_arrays.back()->make_array('I',BLOCK); } nblocks = (size_t)a[0]; return 0; };
        blocks.methods["get(I)Ljava/lang/Object;"] = [this](const std::vector<int64_t>& a) -> int64_t { if( a[0] < 0 || (size_t)a[0] >= nblocks ) { vm.broke("block index out of bounds"); return 0; } return (int64_t)block_arrays[(size_t)a[0]].get(); };
        sets.methods["resize(I)V"] = [this](const std::vector<int64_t>& a) -> int64_t { if( a[0] < 0 ) { vm.broke("negative queue size"); return 0; } while( set_objs.size() < (size_t)a[0] ) { set_objs.emplace_back(new Bil()); Bil* b = set_objs.back().get(); b->o.cls = "boofcv/struct/BlockIndexLength"; b->o.methods["set(III)V"] = [b](const std::vector<int64_t>& v) -> int64_t { b->start = v[0]; b->length = v[1]; b->block = v[2]; return 0; }; } nsets = (size_t)a[0]; return 0; };
        sets.methods["get(I)Ljava/lang/Object;"] = [this](const std::vector<int64_t>& a) -> int64_t { if( a[0] < 0 || (size_t)a[0] >= nsets ) { vm.broke("set index out of bounds"); return 0; } return (int64_t)&set_objs[(size_t)a[0]]->o; };
        bil.cls = "boofcv/struct/BlockIndexLength"; bil.methods["set(III)V"] = [](const std::vector<int64_t>&) -> int64_t { return 0; };
        four.cls = eight.cls = "boofcv/struct/ConnectRule"; four.methods["ordinal()I"] = [](const std::vector<int64_t>&) -> int64_t { return 0; }; eight.methods["ordinal()I"] = [](const std::vector<int64_t>&) -> int64_t { return 1; };
        vm.statics["boofcv/struct/BlockIndexLength"] = &bil; vm.statics["boofcv/struct/ConnectRule"] = &four; vm.statics["boofcv/struct/ConnectRule.FOUR"] = &four; vm.statics["boofcv/struct/ConnectRule.EIGHT"] = &eight;
    }
    JObject* cur;
    // NativeChang2004.process() before calling the native function
    void reset() { blobs.clear(); nblocks = 0; nsets = 0; }
    // PackedSetsPoint2D_I32.getSet
    bool load(size_t i, std::vector<std::pair<S32,S32>>& out) { Bil& b = *set_objs[i]; out.clear(); int64_t at = b.start, blk = b.block; if( b.length < 0 || at < 0 || blk < 0 || at >= BLOCK+1 ) return false; for( int64_t k = 0; k < b.length; k++ ) { if( at >= BLOCK ) { at = 0; blk++; } if( (size_t)blk >= nblocks || at+1 >= BLOCK ) return false; const S32* d = block_arrays[(size_t)blk]->as<S32>(); out.push_back(std::make_pair(d[at],d[at+1])); at += 2; } return true; }
};
