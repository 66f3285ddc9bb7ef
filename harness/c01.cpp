#include "msg.hpp"
int main() {
    H::init();
    while (H::time_left()) {
        Keep k; MDesc d;
        auto *req = mreq(d, k);
        H::begin(mshow(d, true));
        void *buf = nullptr; size_t size = 0;
        const bool own = H::chance(30);
        if (own) buf = malloc(req->size());                 // the caller may bring the buffer
        CHECK(Message::Packer::pack(req, &buf, &size) == MESSAGE_SUCCESS && buf && size, "serializing failed");
        char *copy = (char *) malloc(size); memcpy(copy, buf, size);
        Message::Request::Request *got = nullptr;
        CHECK(Message::Unpacker::unpack(&got, copy, size) == MESSAGE_SUCCESS, "deserializing failed");
        mcheck(d, got);
        if (d.e.size()) H::nontrivial++;
        destruct(got); destruct(req); free(copy); drop(k);
        if (own) free(buf); else dealloc(buf);
    }
    return H::finish("random requests of every kind (0-200 entries, values of 0-3000 bytes of every type and ownership, every query operation) serialized and deserialized from an exact-size copy, under ASAN");
}
