DO $$ BEGIN
ASSERT (SELECT average(time_weight('Linear', t, v)) FROM (VALUES ('2020-01-01 00:00:00+00'::timestamptz, 1.0::float8), ('2020-01-01 00:01:00+00', 3.0)) AS d(t, v)) = 2.0, 'average';
END $$;
