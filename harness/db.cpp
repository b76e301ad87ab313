// Instantiates the ORM / SQLite layer (never executed).
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <HXLibs/log/Log.hpp>
using namespace HX;
using namespace HX::db;
using namespace meta::fixed_string_literals;

struct Role { int64_t id; int loliId; struct UnionAttr { attr::PrimaryKey<&Role::id, &Role::loliId> pk; }; };
struct User {
    Constraint<std::string, attr::NotNull, attr::DescIndex, attr::DefaultVal<"loli"_fs>> name;
    Constraint<int, attr::PrimaryKey<>, attr::AutoIncrement, attr::NotNull> id;
    Constraint<int, attr::DefaultVal<18>> age;
    Constraint<int, attr::Index<>> roleId;
    struct UnionAttr { attr::Index<attr::IndexOrder<&User::age, attr::Order::Desc>, attr::IndexOrder<&User::roleId>> index_1; };
};
struct TS { db::AutoIncrementPrimaryKey<int64_t> id; std::string name; int32_t cnt; double d; std::optional<int> oi; std::optional<std::string> os; std::vector<char> blob; };

void h_db() {
    auto db = DataBase<DbType::Sqlite3>{"./x.db"};
    (void)db.createDatabase<User>(); (void)db.createDatabase<Role>(); 
    db.open("y"); db.close();
    User user{};
    (void)sqlite::CreateDbSql::createDatabase(user); (void)sqlite::CreateDbSql::createIndex(user);
    int v{};
    (void)db.sqlTemplate<1>().select<Col{&User::id}.as<"userId">()>().from<User>().join<Role>()
      .on<Col(&User::roleId) == Col(&Role::loliId)>()
      .where<((Col(&User::age) == 18) && Col(&User::name).like<"loli_%">()) || Col(&Role::id).notIn<1, 2, 3, Col(&User::age)>() || (Col(&User::id) == Col(&Role::id) + static_cast<int64_t>(1))>()
      .groupBy<&User::name>().having<Col(&User::id) == 3>().orderBy<Col(&User::age).asc(), Col(&User::id).desc()>().limit<10, 50>();
    (void)db.sqlTemplate<2>().select<Col(&User::id).as<"userId">(), sum<Col(&User::age)>.as<"1">()>().from<User>().join<Role>()
      .on<Col(&User::roleId) == Col(&Role::loliId)>()
      .where<((Col(&User::age) == db::param<int>.bind<"?age">()) || Col(&User::age) == 2)>(v)
      .groupBy<&User::name>().orderBy<Col(&User::age).asc()>().limit<db::param<int>>(50);
    (void)db.sqlTemplate<"i1"_fs>().insert<Role>({}).returning<&Role::id, &Role::loliId>().exec();
    (void)db.sqlTemplate<"i2"_fs>().insert<User>({{"a"}, {}, {24}, {1}}).returning<&User::id>().exec();
    (void)db.sqlTemplate<"i3"_fs>().insert<&User::name>(std::string_view{"x"}).returning<&User::id, &User::age, &User::name>().exec();
    db.sqlTemplate<"i4"_fs>().insert<&TS::name, &TS::cnt>(std::string{"l"}, 2233).exec();
    (void)db.sqlTemplate<"u1"_fs>().update<User>({{"x"}, {}, {14}, {}}).where<Col(&User::name) == "y"_fs>().returning<&User::id, &User::name>().execGetChanges();
    (void)db.sqlTemplate<"u2"_fs>().update<&User::name>(std::string_view{"x"}).where<Col(&User::name) == "z"_fs>().returning<&User::id, &User::name>().execGetChanges();
    (void)db.sqlTemplate<"d1"_fs>().deleteForm<User>().where<Col(&User::name) == "z"_fs>().returning<&User::name, &User::id>().execGetChanges();
    auto r = db.sqlTemplate<"s1"_fs>().select<Col(&User::name).as<"userId">(), sum<Col(&User::age)>.as<"sum">()>().from<User>()
        .where<((Col(&User::age) == db::param<int>.bind<"?age">()) || Col(&User::age) > 2)>(v).groupBy<&User::name>().exec();
    for (auto&& x : r) { (void)x.get<"userId">(); (void)x.get<"sum">(); }
    (void)db.sqlTemplate<"s2"_fs>().select<Col(&TS::id)>().from<TS>().exec();
    (void)db.sqlTemplate<"s2"_fs>().select<Col(&TS::id)>().from<TS>().execNoThrow();
    (void)db.sqlTemplate<"s3"_fs>().select<Col(&TS::id)>().from<TS>().where<Col(&TS::cnt) == param<int32_t>.bind<"?l">() && Col(&TS::name) == param<std::string>.bind<"?n">()>(bind<"?n">.link(std::string{"l"}), bind<"?l">.link(1)).exec();
    db.sqlTemplate<"i5"_fs>().insert<&TS::id, &TS::name, &TS::cnt, &TS::d>(std::int64_t{1}, std::string_view{"x"}, 3, 2.5).exec();
    db.sqlTemplate<"u3"_fs>().update<&TS::name, &TS::d>(std::string{"x"}, 1.0).where<Col(&TS::cnt) == 3>().exec();
    (void)db.sqlTemplate<"u3"_fs>().update<&TS::name, &TS::d>(std::string{"x"}, 1.0).where<Col(&TS::cnt) == 3>().execGetChanges();
    (void)db.sqlTemplate<"u3"_fs>().update<&TS::name, &TS::d>(std::string{"x"}, 1.0).where<Col(&TS::cnt) == 3>().execNoThrowGetChanges();
    db.sqlTemplate<"d2"_fs>().deleteForm<TS>().where<5 < Col(&TS::cnt) && !Col(&TS::cnt)>().exec();
    (void)db.sqlTemplate<"d3"_fs>().deleteForm<TS>().where<(7 - Col(&TS::cnt)) == 3 || (Col(&TS::cnt) * 2) % 3 == 1>().returning<&TS::id, &TS::name, &TS::d>().execGetChanges();
    (void)db.sqlTemplate<"d4"_fs>().deleteForm<TS>().returning<&TS::id, &TS::name, &TS::d>().execNoThrowGetChanges();
    (void)db.sqlTemplate<"s4"_fs>().select<Col(&TS::id), Col(&TS::name), Col(&TS::cnt), Col(&TS::d), Col(&TS::oi), Col(&TS::os)>().from<TS>()
        .leftJoin<Role>().on<Col(&TS::cnt) == Col(&Role::loliId)>().where<Col(&TS::os).isNull() || Col(&TS::oi).isNotNull()>().orderBy<Col(&TS::id).asc()>().exec();
    (void)db.sqlTemplate<"s5"_fs>().select<Col(&TS::id)>().from<TS>().where<Col(&TS::cnt) == param<int32_t>.bind<"?l">() && Col(&TS::name) == param<std::string>.bind<"?n">()>(bind<"?n">.link(std::string{"l"}), bind<"?l">.link(1)).execNoThrow();
    DataBase<DbType::Sqlite3> db2; db2 = std::move(db); db2.exec("x");
    (void)db2.sqlTemplate<"i6"_fs>().insert<Role, true>({}).returning<&Role::id>().exec();
}
