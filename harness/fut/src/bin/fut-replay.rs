fn main() {
    nd::replay_main(fut::TABLES)
}
