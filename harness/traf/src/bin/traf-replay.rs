fn main() {
    nd::replay_main(traf::TABLES)
}
