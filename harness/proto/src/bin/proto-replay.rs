fn main() {
    nd::replay_main(proto::TABLES)
}
