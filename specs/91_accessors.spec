=== prelude
pub mod nm {
use vstd::prelude::*;
use crate::vp::*;
use crate::vs::*;
use crate::atom::ident::*;
use crate::atom::data::*;
use crate::types::*;
// ===================================================================== documented identifiers
#[verifier::opaque]
pub open spec fn n__alb() -> IdS { fid(169u8, 97u8, 108u8, 98u8) }
#[verifier::opaque]
pub open spec fn n_cprt() -> IdS { fid(99u8, 112u8, 114u8, 116u8) }
#[verifier::opaque]
pub open spec fn n__too() -> IdS { fid(169u8, 116u8, 111u8, 111u8) }
#[verifier::opaque]
pub open spec fn n__lyr() -> IdS { fid(169u8, 108u8, 121u8, 114u8) }
#[verifier::opaque]
pub open spec fn n__mvn() -> IdS { fid(169u8, 109u8, 118u8, 110u8) }
#[verifier::opaque]
pub open spec fn n__nam() -> IdS { fid(169u8, 110u8, 97u8, 109u8) }
#[verifier::opaque]
pub open spec fn n_tven() -> IdS { fid(116u8, 118u8, 101u8, 110u8) }
#[verifier::opaque]
pub open spec fn n_tvnn() -> IdS { fid(116u8, 118u8, 110u8, 110u8) }
#[verifier::opaque]
pub open spec fn n_tvsh() -> IdS { fid(116u8, 118u8, 115u8, 104u8) }
#[verifier::opaque]
pub open spec fn n__wrk() -> IdS { fid(169u8, 119u8, 114u8, 107u8) }
#[verifier::opaque]
pub open spec fn n__day() -> IdS { fid(169u8, 100u8, 97u8, 121u8) }
#[verifier::opaque]
pub open spec fn n_isrc() -> IdS { IdS::X("com.apple.iTunes"@, "ISRC"@) }
#[verifier::opaque]
pub open spec fn n_aART() -> IdS { fid(97u8, 65u8, 82u8, 84u8) }
#[verifier::opaque]
pub open spec fn n__ART() -> IdS { fid(169u8, 65u8, 82u8, 84u8) }
#[verifier::opaque]
pub open spec fn n_catg() -> IdS { fid(99u8, 97u8, 116u8, 103u8) }
#[verifier::opaque]
pub open spec fn n__cmt() -> IdS { fid(169u8, 99u8, 109u8, 116u8) }
#[verifier::opaque]
pub open spec fn n__wrt() -> IdS { fid(169u8, 119u8, 114u8, 116u8) }
#[verifier::opaque]
pub open spec fn n__gen() -> IdS { fid(169u8, 103u8, 101u8, 110u8) }
#[verifier::opaque]
pub open spec fn n_desc() -> IdS { fid(100u8, 101u8, 115u8, 99u8) }
#[verifier::opaque]
pub open spec fn n__grp() -> IdS { fid(169u8, 103u8, 114u8, 112u8) }
#[verifier::opaque]
pub open spec fn n_keyw() -> IdS { fid(107u8, 101u8, 121u8, 119u8) }
#[verifier::opaque]
pub open spec fn n_lyricist() -> IdS { IdS::X("com.apple.iTunes"@, "LYRICIST"@) }
#[verifier::opaque]
pub open spec fn n_cpil() -> IdS { fid(99u8, 112u8, 105u8, 108u8) }
#[verifier::opaque]
pub open spec fn n_pgap() -> IdS { fid(112u8, 103u8, 97u8, 112u8) }
#[verifier::opaque]
pub open spec fn n_shwm() -> IdS { fid(115u8, 104u8, 119u8, 109u8) }
#[verifier::opaque]
pub open spec fn n_tmpo() -> IdS { fid(116u8, 109u8, 112u8, 111u8) }
#[verifier::opaque]
pub open spec fn n__mvc() -> IdS { fid(169u8, 109u8, 118u8, 99u8) }
#[verifier::opaque]
pub open spec fn n__mvi() -> IdS { fid(169u8, 109u8, 118u8, 105u8) }
#[verifier::opaque]
pub open spec fn n_tves() -> IdS { fid(116u8, 118u8, 101u8, 115u8) }
#[verifier::opaque]
pub open spec fn n_tvsn() -> IdS { fid(116u8, 118u8, 115u8, 110u8) }
#[verifier::opaque]
pub open spec fn n_covr() -> IdS { fid(99u8, 111u8, 118u8, 114u8) }
#[verifier::opaque]
pub open spec fn n_stik() -> IdS { fid(115u8, 116u8, 105u8, 107u8) }
#[verifier::opaque]
pub open spec fn n_rtng() -> IdS { fid(114u8, 116u8, 110u8, 103u8) }
#[verifier::opaque]
pub open spec fn n_trkn() -> IdS { fid(116u8, 114u8, 107u8, 110u8) }
#[verifier::opaque]
pub open spec fn n_disk() -> IdS { fid(100u8, 105u8, 115u8, 107u8) }
#[verifier::opaque]
pub open spec fn n_gnre() -> IdS { fid(103u8, 110u8, 114u8, 101u8) }
/// the public identifier constants have the documented values
pub proof fn lemma_names()
    ensures
        IdS::F(ALBUM) == n__alb(), //@P11
        IdS::F(COPYRIGHT) == n_cprt(), //@P11
        IdS::F(ENCODER) == n__too(), //@P11
        IdS::F(LYRICS) == n__lyr(), //@P11
        IdS::F(MOVEMENT) == n__mvn(), //@P11
        IdS::F(TITLE) == n__nam(), //@P11
        IdS::F(TV_EPISODE_NAME) == n_tven(), //@P11
        IdS::F(TV_NETWORK_NAME) == n_tvnn(), //@P11
        IdS::F(TV_SHOW_NAME) == n_tvsh(), //@P11
        IdS::F(WORK) == n__wrk(), //@P11
        IdS::F(YEAR) == n__day(), //@P11
        IdS::X("com.apple.iTunes"@, "ISRC"@) == n_isrc(), //@P11
        IdS::F(ALBUM_ARTIST) == n_aART(), //@P11
        IdS::F(ARTIST) == n__ART(), //@P11
        IdS::F(CATEGORY) == n_catg(), //@P11
        IdS::F(COMMENT) == n__cmt(), //@P11
        IdS::F(COMPOSER) == n__wrt(), //@P11
        IdS::F(CUSTOM_GENRE) == n__gen(), //@P11
        IdS::F(DESCRIPTION) == n_desc(), //@P11
        IdS::F(GROUPING) == n__grp(), //@P11
        IdS::F(KEYWORD) == n_keyw(), //@P11
        IdS::X("com.apple.iTunes"@, "LYRICIST"@) == n_lyricist(), //@P11
        IdS::F(COMPILATION) == n_cpil(), //@P11
        IdS::F(GAPLESS_PLAYBACK) == n_pgap(), //@P11
        IdS::F(SHOW_MOVEMENT) == n_shwm(), //@P11
        IdS::F(BPM) == n_tmpo(), //@P11
        IdS::F(MOVEMENT_COUNT) == n__mvc(), //@P11
        IdS::F(MOVEMENT_INDEX) == n__mvi(), //@P11
        IdS::F(TV_EPISODE) == n_tves(), //@P11
        IdS::F(TV_SEASON) == n_tvsn(), //@P11
        IdS::F(ARTWORK) == n_covr(), //@P11
        IdS::F(MEDIA_TYPE) == n_stik(), //@P11
        IdS::F(ADVISORY_RATING) == n_rtng(), //@P11
        IdS::F(TRACK_NUMBER) == n_trkn(), //@P11
        IdS::F(DISC_NUMBER) == n_disk(), //@P11
        IdS::F(STANDARD_GENRE) == n_gnre(), //@P11
{
    reveal(n__alb);
    reveal(n_cprt);
    reveal(n__too);
    reveal(n__lyr);
    reveal(n__mvn);
    reveal(n__nam);
    reveal(n_tven);
    reveal(n_tvnn);
    reveal(n_tvsh);
    reveal(n__wrk);
    reveal(n__day);
    reveal(n_isrc);
    reveal(n_aART);
    reveal(n__ART);
    reveal(n_catg);
    reveal(n__cmt);
    reveal(n__wrt);
    reveal(n__gen);
    reveal(n_desc);
    reveal(n__grp);
    reveal(n_keyw);
    reveal(n_lyricist);
    reveal(n_cpil);
    reveal(n_pgap);
    reveal(n_shwm);
    reveal(n_tmpo);
    reveal(n__mvc);
    reveal(n__mvi);
    reveal(n_tves);
    reveal(n_tvsn);
    reveal(n_covr);
    reveal(n_stik);
    reveal(n_rtng);
    reveal(n_trkn);
    reveal(n_disk);
    reveal(n_gnre);
    assert(ALBUM.0 =~= [169u8, 97u8, 108u8, 98u8]);
    assert(COPYRIGHT.0 =~= [99u8, 112u8, 114u8, 116u8]);
    assert(ENCODER.0 =~= [169u8, 116u8, 111u8, 111u8]);
    assert(LYRICS.0 =~= [169u8, 108u8, 121u8, 114u8]);
    assert(MOVEMENT.0 =~= [169u8, 109u8, 118u8, 110u8]);
    assert(TITLE.0 =~= [169u8, 110u8, 97u8, 109u8]);
    assert(TV_EPISODE_NAME.0 =~= [116u8, 118u8, 101u8, 110u8]);
    assert(TV_NETWORK_NAME.0 =~= [116u8, 118u8, 110u8, 110u8]);
    assert(TV_SHOW_NAME.0 =~= [116u8, 118u8, 115u8, 104u8]);
    assert(WORK.0 =~= [169u8, 119u8, 114u8, 107u8]);
    assert(YEAR.0 =~= [169u8, 100u8, 97u8, 121u8]);
    assert(ALBUM_ARTIST.0 =~= [97u8, 65u8, 82u8, 84u8]);
    assert(ARTIST.0 =~= [169u8, 65u8, 82u8, 84u8]);
    assert(CATEGORY.0 =~= [99u8, 97u8, 116u8, 103u8]);
    assert(COMMENT.0 =~= [169u8, 99u8, 109u8, 116u8]);
    assert(COMPOSER.0 =~= [169u8, 119u8, 114u8, 116u8]);
    assert(CUSTOM_GENRE.0 =~= [169u8, 103u8, 101u8, 110u8]);
    assert(DESCRIPTION.0 =~= [100u8, 101u8, 115u8, 99u8]);
    assert(GROUPING.0 =~= [169u8, 103u8, 114u8, 112u8]);
    assert(KEYWORD.0 =~= [107u8, 101u8, 121u8, 119u8]);
    assert(COMPILATION.0 =~= [99u8, 112u8, 105u8, 108u8]);
    assert(GAPLESS_PLAYBACK.0 =~= [112u8, 103u8, 97u8, 112u8]);
    assert(SHOW_MOVEMENT.0 =~= [115u8, 104u8, 119u8, 109u8]);
    assert(BPM.0 =~= [116u8, 109u8, 112u8, 111u8]);
    assert(MOVEMENT_COUNT.0 =~= [169u8, 109u8, 118u8, 99u8]);
    assert(MOVEMENT_INDEX.0 =~= [169u8, 109u8, 118u8, 105u8]);
    assert(TV_EPISODE.0 =~= [116u8, 118u8, 101u8, 115u8]);
    assert(TV_SEASON.0 =~= [116u8, 118u8, 115u8, 110u8]);
    assert(ARTWORK.0 =~= [99u8, 111u8, 118u8, 114u8]);
    assert(MEDIA_TYPE.0 =~= [115u8, 116u8, 105u8, 107u8]);
    assert(ADVISORY_RATING.0 =~= [114u8, 116u8, 110u8, 103u8]);
    assert(TRACK_NUMBER.0 =~= [116u8, 114u8, 107u8, 110u8]);
    assert(DISC_NUMBER.0 =~= [100u8, 105u8, 115u8, 107u8]);
    assert(STANDARD_GENRE.0 =~= [103u8, 110u8, 114u8, 101u8]);
}
/// no two fields share an identifier
pub proof fn lemma_names_distinct()
    ensures
        n__alb() != n_cprt(), //@P11
        n__alb() != n__too(), //@P11
        n__alb() != n__lyr(), //@P11
        n__alb() != n__mvn(), //@P11
        n__alb() != n__nam(), //@P11
        n__alb() != n_tven(), //@P11
        n__alb() != n_tvnn(), //@P11
        n__alb() != n_tvsh(), //@P11
        n__alb() != n__wrk(), //@P11
        n__alb() != n__day(), //@P11
        n__alb() != n_aART(), //@P11
        n__alb() != n__ART(), //@P11
        n__alb() != n_catg(), //@P11
        n__alb() != n__cmt(), //@P11
        n__alb() != n__wrt(), //@P11
        n__alb() != n__gen(), //@P11
        n__alb() != n_desc(), //@P11
        n__alb() != n__grp(), //@P11
        n__alb() != n_keyw(), //@P11
        n__alb() != n_cpil(), //@P11
        n__alb() != n_pgap(), //@P11
        n__alb() != n_shwm(), //@P11
        n__alb() != n_tmpo(), //@P11
        n__alb() != n__mvc(), //@P11
        n__alb() != n__mvi(), //@P11
        n__alb() != n_tves(), //@P11
        n__alb() != n_tvsn(), //@P11
        n__alb() != n_covr(), //@P11
        n__alb() != n_stik(), //@P11
        n__alb() != n_rtng(), //@P11
        n__alb() != n_trkn(), //@P11
        n__alb() != n_disk(), //@P11
        n__alb() != n_gnre(), //@P11
        n_cprt() != n__too(), //@P11
        n_cprt() != n__lyr(), //@P11
        n_cprt() != n__mvn(), //@P11
        n_cprt() != n__nam(), //@P11
        n_cprt() != n_tven(), //@P11
        n_cprt() != n_tvnn(), //@P11
        n_cprt() != n_tvsh(), //@P11
        n_cprt() != n__wrk(), //@P11
        n_cprt() != n__day(), //@P11
        n_cprt() != n_aART(), //@P11
        n_cprt() != n__ART(), //@P11
        n_cprt() != n_catg(), //@P11
        n_cprt() != n__cmt(), //@P11
        n_cprt() != n__wrt(), //@P11
        n_cprt() != n__gen(), //@P11
        n_cprt() != n_desc(), //@P11
        n_cprt() != n__grp(), //@P11
        n_cprt() != n_keyw(), //@P11
        n_cprt() != n_cpil(), //@P11
        n_cprt() != n_pgap(), //@P11
        n_cprt() != n_shwm(), //@P11
        n_cprt() != n_tmpo(), //@P11
        n_cprt() != n__mvc(), //@P11
        n_cprt() != n__mvi(), //@P11
        n_cprt() != n_tves(), //@P11
        n_cprt() != n_tvsn(), //@P11
        n_cprt() != n_covr(), //@P11
        n_cprt() != n_stik(), //@P11
        n_cprt() != n_rtng(), //@P11
        n_cprt() != n_trkn(), //@P11
        n_cprt() != n_disk(), //@P11
        n_cprt() != n_gnre(), //@P11
        n__too() != n__lyr(), //@P11
        n__too() != n__mvn(), //@P11
        n__too() != n__nam(), //@P11
        n__too() != n_tven(), //@P11
        n__too() != n_tvnn(), //@P11
        n__too() != n_tvsh(), //@P11
        n__too() != n__wrk(), //@P11
        n__too() != n__day(), //@P11
        n__too() != n_aART(), //@P11
        n__too() != n__ART(), //@P11
        n__too() != n_catg(), //@P11
        n__too() != n__cmt(), //@P11
        n__too() != n__wrt(), //@P11
        n__too() != n__gen(), //@P11
        n__too() != n_desc(), //@P11
        n__too() != n__grp(), //@P11
        n__too() != n_keyw(), //@P11
        n__too() != n_cpil(), //@P11
        n__too() != n_pgap(), //@P11
        n__too() != n_shwm(), //@P11
        n__too() != n_tmpo(), //@P11
        n__too() != n__mvc(), //@P11
        n__too() != n__mvi(), //@P11
        n__too() != n_tves(), //@P11
        n__too() != n_tvsn(), //@P11
        n__too() != n_covr(), //@P11
        n__too() != n_stik(), //@P11
        n__too() != n_rtng(), //@P11
        n__too() != n_trkn(), //@P11
        n__too() != n_disk(), //@P11
        n__too() != n_gnre(), //@P11
        n__lyr() != n__mvn(), //@P11
        n__lyr() != n__nam(), //@P11
        n__lyr() != n_tven(), //@P11
        n__lyr() != n_tvnn(), //@P11
        n__lyr() != n_tvsh(), //@P11
        n__lyr() != n__wrk(), //@P11
        n__lyr() != n__day(), //@P11
        n__lyr() != n_aART(), //@P11
        n__lyr() != n__ART(), //@P11
        n__lyr() != n_catg(), //@P11
        n__lyr() != n__cmt(), //@P11
        n__lyr() != n__wrt(), //@P11
        n__lyr() != n__gen(), //@P11
        n__lyr() != n_desc(), //@P11
        n__lyr() != n__grp(), //@P11
        n__lyr() != n_keyw(), //@P11
        n__lyr() != n_cpil(), //@P11
        n__lyr() != n_pgap(), //@P11
        n__lyr() != n_shwm(), //@P11
        n__lyr() != n_tmpo(), //@P11
        n__lyr() != n__mvc(), //@P11
        n__lyr() != n__mvi(), //@P11
        n__lyr() != n_tves(), //@P11
        n__lyr() != n_tvsn(), //@P11
        n__lyr() != n_covr(), //@P11
        n__lyr() != n_stik(), //@P11
        n__lyr() != n_rtng(), //@P11
        n__lyr() != n_trkn(), //@P11
        n__lyr() != n_disk(), //@P11
        n__lyr() != n_gnre(), //@P11
        n__mvn() != n__nam(), //@P11
        n__mvn() != n_tven(), //@P11
        n__mvn() != n_tvnn(), //@P11
        n__mvn() != n_tvsh(), //@P11
        n__mvn() != n__wrk(), //@P11
        n__mvn() != n__day(), //@P11
        n__mvn() != n_aART(), //@P11
        n__mvn() != n__ART(), //@P11
        n__mvn() != n_catg(), //@P11
        n__mvn() != n__cmt(), //@P11
        n__mvn() != n__wrt(), //@P11
        n__mvn() != n__gen(), //@P11
        n__mvn() != n_desc(), //@P11
        n__mvn() != n__grp(), //@P11
        n__mvn() != n_keyw(), //@P11
        n__mvn() != n_cpil(), //@P11
        n__mvn() != n_pgap(), //@P11
        n__mvn() != n_shwm(), //@P11
        n__mvn() != n_tmpo(), //@P11
        n__mvn() != n__mvc(), //@P11
        n__mvn() != n__mvi(), //@P11
        n__mvn() != n_tves(), //@P11
        n__mvn() != n_tvsn(), //@P11
        n__mvn() != n_covr(), //@P11
        n__mvn() != n_stik(), //@P11
        n__mvn() != n_rtng(), //@P11
        n__mvn() != n_trkn(), //@P11
        n__mvn() != n_disk(), //@P11
        n__mvn() != n_gnre(), //@P11
        n__nam() != n_tven(), //@P11
        n__nam() != n_tvnn(), //@P11
        n__nam() != n_tvsh(), //@P11
        n__nam() != n__wrk(), //@P11
        n__nam() != n__day(), //@P11
        n__nam() != n_aART(), //@P11
        n__nam() != n__ART(), //@P11
        n__nam() != n_catg(), //@P11
        n__nam() != n__cmt(), //@P11
        n__nam() != n__wrt(), //@P11
        n__nam() != n__gen(), //@P11
        n__nam() != n_desc(), //@P11
        n__nam() != n__grp(), //@P11
        n__nam() != n_keyw(), //@P11
        n__nam() != n_cpil(), //@P11
        n__nam() != n_pgap(), //@P11
        n__nam() != n_shwm(), //@P11
        n__nam() != n_tmpo(), //@P11
        n__nam() != n__mvc(), //@P11
        n__nam() != n__mvi(), //@P11
        n__nam() != n_tves(), //@P11
        n__nam() != n_tvsn(), //@P11
        n__nam() != n_covr(), //@P11
        n__nam() != n_stik(), //@P11
        n__nam() != n_rtng(), //@P11
        n__nam() != n_trkn(), //@P11
        n__nam() != n_disk(), //@P11
        n__nam() != n_gnre(), //@P11
        n_tven() != n_tvnn(), //@P11
        n_tven() != n_tvsh(), //@P11
        n_tven() != n__wrk(), //@P11
        n_tven() != n__day(), //@P11
        n_tven() != n_aART(), //@P11
        n_tven() != n__ART(), //@P11
        n_tven() != n_catg(), //@P11
        n_tven() != n__cmt(), //@P11
        n_tven() != n__wrt(), //@P11
        n_tven() != n__gen(), //@P11
        n_tven() != n_desc(), //@P11
        n_tven() != n__grp(), //@P11
        n_tven() != n_keyw(), //@P11
        n_tven() != n_cpil(), //@P11
        n_tven() != n_pgap(), //@P11
        n_tven() != n_shwm(), //@P11
        n_tven() != n_tmpo(), //@P11
        n_tven() != n__mvc(), //@P11
        n_tven() != n__mvi(), //@P11
        n_tven() != n_tves(), //@P11
        n_tven() != n_tvsn(), //@P11
        n_tven() != n_covr(), //@P11
        n_tven() != n_stik(), //@P11
        n_tven() != n_rtng(), //@P11
        n_tven() != n_trkn(), //@P11
        n_tven() != n_disk(), //@P11
        n_tven() != n_gnre(), //@P11
        n_tvnn() != n_tvsh(), //@P11
        n_tvnn() != n__wrk(), //@P11
        n_tvnn() != n__day(), //@P11
        n_tvnn() != n_aART(), //@P11
        n_tvnn() != n__ART(), //@P11
        n_tvnn() != n_catg(), //@P11
        n_tvnn() != n__cmt(), //@P11
        n_tvnn() != n__wrt(), //@P11
        n_tvnn() != n__gen(), //@P11
        n_tvnn() != n_desc(), //@P11
        n_tvnn() != n__grp(), //@P11
        n_tvnn() != n_keyw(), //@P11
        n_tvnn() != n_cpil(), //@P11
        n_tvnn() != n_pgap(), //@P11
        n_tvnn() != n_shwm(), //@P11
        n_tvnn() != n_tmpo(), //@P11
        n_tvnn() != n__mvc(), //@P11
        n_tvnn() != n__mvi(), //@P11
        n_tvnn() != n_tves(), //@P11
        n_tvnn() != n_tvsn(), //@P11
        n_tvnn() != n_covr(), //@P11
        n_tvnn() != n_stik(), //@P11
        n_tvnn() != n_rtng(), //@P11
        n_tvnn() != n_trkn(), //@P11
        n_tvnn() != n_disk(), //@P11
        n_tvnn() != n_gnre(), //@P11
        n_tvsh() != n__wrk(), //@P11
        n_tvsh() != n__day(), //@P11
        n_tvsh() != n_aART(), //@P11
        n_tvsh() != n__ART(), //@P11
        n_tvsh() != n_catg(), //@P11
        n_tvsh() != n__cmt(), //@P11
        n_tvsh() != n__wrt(), //@P11
        n_tvsh() != n__gen(), //@P11
        n_tvsh() != n_desc(), //@P11
        n_tvsh() != n__grp(), //@P11
        n_tvsh() != n_keyw(), //@P11
        n_tvsh() != n_cpil(), //@P11
        n_tvsh() != n_pgap(), //@P11
        n_tvsh() != n_shwm(), //@P11
        n_tvsh() != n_tmpo(), //@P11
        n_tvsh() != n__mvc(), //@P11
        n_tvsh() != n__mvi(), //@P11
        n_tvsh() != n_tves(), //@P11
        n_tvsh() != n_tvsn(), //@P11
        n_tvsh() != n_covr(), //@P11
        n_tvsh() != n_stik(), //@P11
        n_tvsh() != n_rtng(), //@P11
        n_tvsh() != n_trkn(), //@P11
        n_tvsh() != n_disk(), //@P11
        n_tvsh() != n_gnre(), //@P11
        n__wrk() != n__day(), //@P11
        n__wrk() != n_aART(), //@P11
        n__wrk() != n__ART(), //@P11
        n__wrk() != n_catg(), //@P11
        n__wrk() != n__cmt(), //@P11
        n__wrk() != n__wrt(), //@P11
        n__wrk() != n__gen(), //@P11
        n__wrk() != n_desc(), //@P11
        n__wrk() != n__grp(), //@P11
        n__wrk() != n_keyw(), //@P11
        n__wrk() != n_cpil(), //@P11
        n__wrk() != n_pgap(), //@P11
        n__wrk() != n_shwm(), //@P11
        n__wrk() != n_tmpo(), //@P11
        n__wrk() != n__mvc(), //@P11
        n__wrk() != n__mvi(), //@P11
        n__wrk() != n_tves(), //@P11
        n__wrk() != n_tvsn(), //@P11
        n__wrk() != n_covr(), //@P11
        n__wrk() != n_stik(), //@P11
        n__wrk() != n_rtng(), //@P11
        n__wrk() != n_trkn(), //@P11
        n__wrk() != n_disk(), //@P11
        n__wrk() != n_gnre(), //@P11
        n__day() != n_aART(), //@P11
        n__day() != n__ART(), //@P11
        n__day() != n_catg(), //@P11
        n__day() != n__cmt(), //@P11
        n__day() != n__wrt(), //@P11
        n__day() != n__gen(), //@P11
        n__day() != n_desc(), //@P11
        n__day() != n__grp(), //@P11
        n__day() != n_keyw(), //@P11
        n__day() != n_cpil(), //@P11
        n__day() != n_pgap(), //@P11
        n__day() != n_shwm(), //@P11
        n__day() != n_tmpo(), //@P11
        n__day() != n__mvc(), //@P11
        n__day() != n__mvi(), //@P11
        n__day() != n_tves(), //@P11
        n__day() != n_tvsn(), //@P11
        n__day() != n_covr(), //@P11
        n__day() != n_stik(), //@P11
        n__day() != n_rtng(), //@P11
        n__day() != n_trkn(), //@P11
        n__day() != n_disk(), //@P11
        n__day() != n_gnre(), //@P11
        n_aART() != n__ART(), //@P11
        n_aART() != n_catg(), //@P11
        n_aART() != n__cmt(), //@P11
        n_aART() != n__wrt(), //@P11
        n_aART() != n__gen(), //@P11
        n_aART() != n_desc(), //@P11
        n_aART() != n__grp(), //@P11
        n_aART() != n_keyw(), //@P11
        n_aART() != n_cpil(), //@P11
        n_aART() != n_pgap(), //@P11
        n_aART() != n_shwm(), //@P11
        n_aART() != n_tmpo(), //@P11
        n_aART() != n__mvc(), //@P11
        n_aART() != n__mvi(), //@P11
        n_aART() != n_tves(), //@P11
        n_aART() != n_tvsn(), //@P11
        n_aART() != n_covr(), //@P11
        n_aART() != n_stik(), //@P11
        n_aART() != n_rtng(), //@P11
        n_aART() != n_trkn(), //@P11
        n_aART() != n_disk(), //@P11
        n_aART() != n_gnre(), //@P11
        n__ART() != n_catg(), //@P11
        n__ART() != n__cmt(), //@P11
        n__ART() != n__wrt(), //@P11
        n__ART() != n__gen(), //@P11
        n__ART() != n_desc(), //@P11
        n__ART() != n__grp(), //@P11
        n__ART() != n_keyw(), //@P11
        n__ART() != n_cpil(), //@P11
        n__ART() != n_pgap(), //@P11
        n__ART() != n_shwm(), //@P11
        n__ART() != n_tmpo(), //@P11
        n__ART() != n__mvc(), //@P11
        n__ART() != n__mvi(), //@P11
        n__ART() != n_tves(), //@P11
        n__ART() != n_tvsn(), //@P11
        n__ART() != n_covr(), //@P11
        n__ART() != n_stik(), //@P11
        n__ART() != n_rtng(), //@P11
        n__ART() != n_trkn(), //@P11
        n__ART() != n_disk(), //@P11
        n__ART() != n_gnre(), //@P11
        n_catg() != n__cmt(), //@P11
        n_catg() != n__wrt(), //@P11
        n_catg() != n__gen(), //@P11
        n_catg() != n_desc(), //@P11
        n_catg() != n__grp(), //@P11
        n_catg() != n_keyw(), //@P11
        n_catg() != n_cpil(), //@P11
        n_catg() != n_pgap(), //@P11
        n_catg() != n_shwm(), //@P11
        n_catg() != n_tmpo(), //@P11
        n_catg() != n__mvc(), //@P11
        n_catg() != n__mvi(), //@P11
        n_catg() != n_tves(), //@P11
        n_catg() != n_tvsn(), //@P11
        n_catg() != n_covr(), //@P11
        n_catg() != n_stik(), //@P11
        n_catg() != n_rtng(), //@P11
        n_catg() != n_trkn(), //@P11
        n_catg() != n_disk(), //@P11
        n_catg() != n_gnre(), //@P11
        n__cmt() != n__wrt(), //@P11
        n__cmt() != n__gen(), //@P11
        n__cmt() != n_desc(), //@P11
        n__cmt() != n__grp(), //@P11
        n__cmt() != n_keyw(), //@P11
        n__cmt() != n_cpil(), //@P11
        n__cmt() != n_pgap(), //@P11
        n__cmt() != n_shwm(), //@P11
        n__cmt() != n_tmpo(), //@P11
        n__cmt() != n__mvc(), //@P11
        n__cmt() != n__mvi(), //@P11
        n__cmt() != n_tves(), //@P11
        n__cmt() != n_tvsn(), //@P11
        n__cmt() != n_covr(), //@P11
        n__cmt() != n_stik(), //@P11
        n__cmt() != n_rtng(), //@P11
        n__cmt() != n_trkn(), //@P11
        n__cmt() != n_disk(), //@P11
        n__cmt() != n_gnre(), //@P11
        n__wrt() != n__gen(), //@P11
        n__wrt() != n_desc(), //@P11
        n__wrt() != n__grp(), //@P11
        n__wrt() != n_keyw(), //@P11
        n__wrt() != n_cpil(), //@P11
        n__wrt() != n_pgap(), //@P11
        n__wrt() != n_shwm(), //@P11
        n__wrt() != n_tmpo(), //@P11
        n__wrt() != n__mvc(), //@P11
        n__wrt() != n__mvi(), //@P11
        n__wrt() != n_tves(), //@P11
        n__wrt() != n_tvsn(), //@P11
        n__wrt() != n_covr(), //@P11
        n__wrt() != n_stik(), //@P11
        n__wrt() != n_rtng(), //@P11
        n__wrt() != n_trkn(), //@P11
        n__wrt() != n_disk(), //@P11
        n__wrt() != n_gnre(), //@P11
        n__gen() != n_desc(), //@P11
        n__gen() != n__grp(), //@P11
        n__gen() != n_keyw(), //@P11
        n__gen() != n_cpil(), //@P11
        n__gen() != n_pgap(), //@P11
        n__gen() != n_shwm(), //@P11
        n__gen() != n_tmpo(), //@P11
        n__gen() != n__mvc(), //@P11
        n__gen() != n__mvi(), //@P11
        n__gen() != n_tves(), //@P11
        n__gen() != n_tvsn(), //@P11
        n__gen() != n_covr(), //@P11
        n__gen() != n_stik(), //@P11
        n__gen() != n_rtng(), //@P11
        n__gen() != n_trkn(), //@P11
        n__gen() != n_disk(), //@P11
        n__gen() != n_gnre(), //@P11
        n_desc() != n__grp(), //@P11
        n_desc() != n_keyw(), //@P11
        n_desc() != n_cpil(), //@P11
        n_desc() != n_pgap(), //@P11
        n_desc() != n_shwm(), //@P11
        n_desc() != n_tmpo(), //@P11
        n_desc() != n__mvc(), //@P11
        n_desc() != n__mvi(), //@P11
        n_desc() != n_tves(), //@P11
        n_desc() != n_tvsn(), //@P11
        n_desc() != n_covr(), //@P11
        n_desc() != n_stik(), //@P11
        n_desc() != n_rtng(), //@P11
        n_desc() != n_trkn(), //@P11
        n_desc() != n_disk(), //@P11
        n_desc() != n_gnre(), //@P11
        n__grp() != n_keyw(), //@P11
        n__grp() != n_cpil(), //@P11
        n__grp() != n_pgap(), //@P11
        n__grp() != n_shwm(), //@P11
        n__grp() != n_tmpo(), //@P11
        n__grp() != n__mvc(), //@P11
        n__grp() != n__mvi(), //@P11
        n__grp() != n_tves(), //@P11
        n__grp() != n_tvsn(), //@P11
        n__grp() != n_covr(), //@P11
        n__grp() != n_stik(), //@P11
        n__grp() != n_rtng(), //@P11
        n__grp() != n_trkn(), //@P11
        n__grp() != n_disk(), //@P11
        n__grp() != n_gnre(), //@P11
        n_keyw() != n_cpil(), //@P11
        n_keyw() != n_pgap(), //@P11
        n_keyw() != n_shwm(), //@P11
        n_keyw() != n_tmpo(), //@P11
        n_keyw() != n__mvc(), //@P11
        n_keyw() != n__mvi(), //@P11
        n_keyw() != n_tves(), //@P11
        n_keyw() != n_tvsn(), //@P11
        n_keyw() != n_covr(), //@P11
        n_keyw() != n_stik(), //@P11
        n_keyw() != n_rtng(), //@P11
        n_keyw() != n_trkn(), //@P11
        n_keyw() != n_disk(), //@P11
        n_keyw() != n_gnre(), //@P11
        n_cpil() != n_pgap(), //@P11
        n_cpil() != n_shwm(), //@P11
        n_cpil() != n_tmpo(), //@P11
        n_cpil() != n__mvc(), //@P11
        n_cpil() != n__mvi(), //@P11
        n_cpil() != n_tves(), //@P11
        n_cpil() != n_tvsn(), //@P11
        n_cpil() != n_covr(), //@P11
        n_cpil() != n_stik(), //@P11
        n_cpil() != n_rtng(), //@P11
        n_cpil() != n_trkn(), //@P11
        n_cpil() != n_disk(), //@P11
        n_cpil() != n_gnre(), //@P11
        n_pgap() != n_shwm(), //@P11
        n_pgap() != n_tmpo(), //@P11
        n_pgap() != n__mvc(), //@P11
        n_pgap() != n__mvi(), //@P11
        n_pgap() != n_tves(), //@P11
        n_pgap() != n_tvsn(), //@P11
        n_pgap() != n_covr(), //@P11
        n_pgap() != n_stik(), //@P11
        n_pgap() != n_rtng(), //@P11
        n_pgap() != n_trkn(), //@P11
        n_pgap() != n_disk(), //@P11
        n_pgap() != n_gnre(), //@P11
        n_shwm() != n_tmpo(), //@P11
        n_shwm() != n__mvc(), //@P11
        n_shwm() != n__mvi(), //@P11
        n_shwm() != n_tves(), //@P11
        n_shwm() != n_tvsn(), //@P11
        n_shwm() != n_covr(), //@P11
        n_shwm() != n_stik(), //@P11
        n_shwm() != n_rtng(), //@P11
        n_shwm() != n_trkn(), //@P11
        n_shwm() != n_disk(), //@P11
        n_shwm() != n_gnre(), //@P11
        n_tmpo() != n__mvc(), //@P11
        n_tmpo() != n__mvi(), //@P11
        n_tmpo() != n_tves(), //@P11
        n_tmpo() != n_tvsn(), //@P11
        n_tmpo() != n_covr(), //@P11
        n_tmpo() != n_stik(), //@P11
        n_tmpo() != n_rtng(), //@P11
        n_tmpo() != n_trkn(), //@P11
        n_tmpo() != n_disk(), //@P11
        n_tmpo() != n_gnre(), //@P11
        n__mvc() != n__mvi(), //@P11
        n__mvc() != n_tves(), //@P11
        n__mvc() != n_tvsn(), //@P11
        n__mvc() != n_covr(), //@P11
        n__mvc() != n_stik(), //@P11
        n__mvc() != n_rtng(), //@P11
        n__mvc() != n_trkn(), //@P11
        n__mvc() != n_disk(), //@P11
        n__mvc() != n_gnre(), //@P11
        n__mvi() != n_tves(), //@P11
        n__mvi() != n_tvsn(), //@P11
        n__mvi() != n_covr(), //@P11
        n__mvi() != n_stik(), //@P11
        n__mvi() != n_rtng(), //@P11
        n__mvi() != n_trkn(), //@P11
        n__mvi() != n_disk(), //@P11
        n__mvi() != n_gnre(), //@P11
        n_tves() != n_tvsn(), //@P11
        n_tves() != n_covr(), //@P11
        n_tves() != n_stik(), //@P11
        n_tves() != n_rtng(), //@P11
        n_tves() != n_trkn(), //@P11
        n_tves() != n_disk(), //@P11
        n_tves() != n_gnre(), //@P11
        n_tvsn() != n_covr(), //@P11
        n_tvsn() != n_stik(), //@P11
        n_tvsn() != n_rtng(), //@P11
        n_tvsn() != n_trkn(), //@P11
        n_tvsn() != n_disk(), //@P11
        n_tvsn() != n_gnre(), //@P11
        n_covr() != n_stik(), //@P11
        n_covr() != n_rtng(), //@P11
        n_covr() != n_trkn(), //@P11
        n_covr() != n_disk(), //@P11
        n_covr() != n_gnre(), //@P11
        n_stik() != n_rtng(), //@P11
        n_stik() != n_trkn(), //@P11
        n_stik() != n_disk(), //@P11
        n_stik() != n_gnre(), //@P11
        n_rtng() != n_trkn(), //@P11
        n_rtng() != n_disk(), //@P11
        n_rtng() != n_gnre(), //@P11
        n_trkn() != n_disk(), //@P11
        n_trkn() != n_gnre(), //@P11
        n_disk() != n_gnre(), //@P11
{
    reveal(n__alb);
    reveal(n_cprt);
    reveal(n__too);
    reveal(n__lyr);
    reveal(n__mvn);
    reveal(n__nam);
    reveal(n_tven);
    reveal(n_tvnn);
    reveal(n_tvsh);
    reveal(n__wrk);
    reveal(n__day);
    reveal(n_isrc);
    reveal(n_aART);
    reveal(n__ART);
    reveal(n_catg);
    reveal(n__cmt);
    reveal(n__wrt);
    reveal(n__gen);
    reveal(n_desc);
    reveal(n__grp);
    reveal(n_keyw);
    reveal(n_lyricist);
    reveal(n_cpil);
    reveal(n_pgap);
    reveal(n_shwm);
    reveal(n_tmpo);
    reveal(n__mvc);
    reveal(n__mvi);
    reveal(n_tves);
    reveal(n_tvsn);
    reveal(n_covr);
    reveal(n_stik);
    reveal(n_rtng);
    reveal(n_trkn);
    reveal(n_disk);
    reveal(n_gnre);
    let a__alb = [169u8, 97u8, 108u8, 98u8];
    assert(a__alb@ == seq![169u8, 97u8, 108u8, 98u8]);
    let a_cprt = [99u8, 112u8, 114u8, 116u8];
    assert(a_cprt@ == seq![99u8, 112u8, 114u8, 116u8]);
    let a__too = [169u8, 116u8, 111u8, 111u8];
    assert(a__too@ == seq![169u8, 116u8, 111u8, 111u8]);
    let a__lyr = [169u8, 108u8, 121u8, 114u8];
    assert(a__lyr@ == seq![169u8, 108u8, 121u8, 114u8]);
    let a__mvn = [169u8, 109u8, 118u8, 110u8];
    assert(a__mvn@ == seq![169u8, 109u8, 118u8, 110u8]);
    let a__nam = [169u8, 110u8, 97u8, 109u8];
    assert(a__nam@ == seq![169u8, 110u8, 97u8, 109u8]);
    let a_tven = [116u8, 118u8, 101u8, 110u8];
    assert(a_tven@ == seq![116u8, 118u8, 101u8, 110u8]);
    let a_tvnn = [116u8, 118u8, 110u8, 110u8];
    assert(a_tvnn@ == seq![116u8, 118u8, 110u8, 110u8]);
    let a_tvsh = [116u8, 118u8, 115u8, 104u8];
    assert(a_tvsh@ == seq![116u8, 118u8, 115u8, 104u8]);
    let a__wrk = [169u8, 119u8, 114u8, 107u8];
    assert(a__wrk@ == seq![169u8, 119u8, 114u8, 107u8]);
    let a__day = [169u8, 100u8, 97u8, 121u8];
    assert(a__day@ == seq![169u8, 100u8, 97u8, 121u8]);
    let a_aART = [97u8, 65u8, 82u8, 84u8];
    assert(a_aART@ == seq![97u8, 65u8, 82u8, 84u8]);
    let a__ART = [169u8, 65u8, 82u8, 84u8];
    assert(a__ART@ == seq![169u8, 65u8, 82u8, 84u8]);
    let a_catg = [99u8, 97u8, 116u8, 103u8];
    assert(a_catg@ == seq![99u8, 97u8, 116u8, 103u8]);
    let a__cmt = [169u8, 99u8, 109u8, 116u8];
    assert(a__cmt@ == seq![169u8, 99u8, 109u8, 116u8]);
    let a__wrt = [169u8, 119u8, 114u8, 116u8];
    assert(a__wrt@ == seq![169u8, 119u8, 114u8, 116u8]);
    let a__gen = [169u8, 103u8, 101u8, 110u8];
    assert(a__gen@ == seq![169u8, 103u8, 101u8, 110u8]);
    let a_desc = [100u8, 101u8, 115u8, 99u8];
    assert(a_desc@ == seq![100u8, 101u8, 115u8, 99u8]);
    let a__grp = [169u8, 103u8, 114u8, 112u8];
    assert(a__grp@ == seq![169u8, 103u8, 114u8, 112u8]);
    let a_keyw = [107u8, 101u8, 121u8, 119u8];
    assert(a_keyw@ == seq![107u8, 101u8, 121u8, 119u8]);
    let a_cpil = [99u8, 112u8, 105u8, 108u8];
    assert(a_cpil@ == seq![99u8, 112u8, 105u8, 108u8]);
    let a_pgap = [112u8, 103u8, 97u8, 112u8];
    assert(a_pgap@ == seq![112u8, 103u8, 97u8, 112u8]);
    let a_shwm = [115u8, 104u8, 119u8, 109u8];
    assert(a_shwm@ == seq![115u8, 104u8, 119u8, 109u8]);
    let a_tmpo = [116u8, 109u8, 112u8, 111u8];
    assert(a_tmpo@ == seq![116u8, 109u8, 112u8, 111u8]);
    let a__mvc = [169u8, 109u8, 118u8, 99u8];
    assert(a__mvc@ == seq![169u8, 109u8, 118u8, 99u8]);
    let a__mvi = [169u8, 109u8, 118u8, 105u8];
    assert(a__mvi@ == seq![169u8, 109u8, 118u8, 105u8]);
    let a_tves = [116u8, 118u8, 101u8, 115u8];
    assert(a_tves@ == seq![116u8, 118u8, 101u8, 115u8]);
    let a_tvsn = [116u8, 118u8, 115u8, 110u8];
    assert(a_tvsn@ == seq![116u8, 118u8, 115u8, 110u8]);
    let a_covr = [99u8, 111u8, 118u8, 114u8];
    assert(a_covr@ == seq![99u8, 111u8, 118u8, 114u8]);
    let a_stik = [115u8, 116u8, 105u8, 107u8];
    assert(a_stik@ == seq![115u8, 116u8, 105u8, 107u8]);
    let a_rtng = [114u8, 116u8, 110u8, 103u8];
    assert(a_rtng@ == seq![114u8, 116u8, 110u8, 103u8]);
    let a_trkn = [116u8, 114u8, 107u8, 110u8];
    assert(a_trkn@ == seq![116u8, 114u8, 107u8, 110u8]);
    let a_disk = [100u8, 105u8, 115u8, 107u8];
    assert(a_disk@ == seq![100u8, 105u8, 115u8, 107u8]);
    let a_gnre = [103u8, 110u8, 114u8, 101u8];
    assert(a_gnre@ == seq![103u8, 110u8, 114u8, 101u8]);
}
// ===================================================================== typed values
pub open spec fn utf8s(v: Seq<Seq<char>>) -> Seq<DataS> { v.map_values(|s: Seq<char>| DataS::Utf8(s)) }
pub open spec fn imgs(v: Seq<(ImgFmt, Seq<u8>)>) -> Seq<DataS> { v.map_values(|i: (ImgFmt, Seq<u8>)| img_data(i)) }
pub proof fn lemma_utf8s(v: Seq<String>)
    ensures forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == DataS::Utf8(v[i]@)) ==> #[trigger] views(s) == utf8s(views(v))
{
    assert forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == DataS::Utf8(v[i]@)) implies #[trigger] views(s) == utf8s(views(v)) by {
        assert(views(s) =~= utf8s(views(v)));
    }
}
pub proof fn lemma_imgs(v: Seq<ImgBuf>)
    ensures forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == img_data((v[i].fmt, v[i].data@))) ==> #[trigger] views(s) == imgs(views(v))
{
    assert forall|s: Seq<Data>| s.len() == v.len() && (forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i])@ == img_data((v[i].fmt, v[i].data@))) implies #[trigger] views(s) == imgs(views(v)) by {
        assert(views(s) =~= imgs(views(v)));
    }
}
/// the integer at an offset of stored bytes
pub open spec fn int16_at(b: Option<Seq<u8>>, p: int) -> Option<u16> {
    match b { Some(v) => if v.len() < p + 2 { None } else { Some(be16(v.subrange(p, p + 2)) as u16) }, None => None }
}
pub open spec fn int32_at(b: Option<Seq<u8>>, p: int) -> Option<u32> {
    match b { Some(v) => if v.len() < p + 4 { None } else { Some(be32(v.subrange(p, p + 4)) as u32) }, None => None }
}
} // mod nm
=== fn tag::Tag::album
    ensures
        oview(r) == first(strings_of(self@, n__alb())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_album
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__alb())), //@P11
        final(self)@ == without(old(self)@, n__alb()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_album
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__alb(), seq![DataS::Utf8(album.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_album
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__alb()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::copyright
    ensures
        oview(r) == first(strings_of(self@, n_cprt())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_copyright
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_cprt())), //@P11
        final(self)@ == without(old(self)@, n_cprt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_copyright
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_cprt(), seq![DataS::Utf8(copyright.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_copyright
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_cprt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::encoder
    ensures
        oview(r) == first(strings_of(self@, n__too())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_encoder
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__too())), //@P11
        final(self)@ == without(old(self)@, n__too()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_encoder
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__too(), seq![DataS::Utf8(encoder.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_encoder
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__too()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::lyrics
    ensures
        oview(r) == first(strings_of(self@, n__lyr())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_lyrics
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__lyr())), //@P11
        final(self)@ == without(old(self)@, n__lyr()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_lyrics
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__lyr(), seq![DataS::Utf8(lyrics.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_lyrics
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__lyr()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::movement
    ensures
        oview(r) == first(strings_of(self@, n__mvn())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_movement
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__mvn())), //@P11
        final(self)@ == without(old(self)@, n__mvn()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_movement
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__mvn(), seq![DataS::Utf8(movement.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_movement
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__mvn()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::title
    ensures
        oview(r) == first(strings_of(self@, n__nam())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_title
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__nam())), //@P11
        final(self)@ == without(old(self)@, n__nam()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_title
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__nam(), seq![DataS::Utf8(title.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_title
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__nam()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::tv_episode_name
    ensures
        oview(r) == first(strings_of(self@, n_tven())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_tv_episode_name
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_tven())), //@P11
        final(self)@ == without(old(self)@, n_tven()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_tv_episode_name
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_tven(), seq![DataS::Utf8(tv_episode_name.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_tv_episode_name
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_tven()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::tv_network_name
    ensures
        oview(r) == first(strings_of(self@, n_tvnn())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_tv_network_name
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_tvnn())), //@P11
        final(self)@ == without(old(self)@, n_tvnn()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_tv_network_name
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_tvnn(), seq![DataS::Utf8(tv_network_name.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_tv_network_name
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_tvnn()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::tv_show_name
    ensures
        oview(r) == first(strings_of(self@, n_tvsh())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_tv_show_name
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_tvsh())), //@P11
        final(self)@ == without(old(self)@, n_tvsh()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_tv_show_name
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_tvsh(), seq![DataS::Utf8(tv_show_name.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_tv_show_name
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_tvsh()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::work
    ensures
        oview(r) == first(strings_of(self@, n__wrk())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_work
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__wrk())), //@P11
        final(self)@ == without(old(self)@, n__wrk()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_work
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__wrk(), seq![DataS::Utf8(work.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_work
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__wrk()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::year
    ensures
        oview(r) == first(strings_of(self@, n__day())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_year
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__day())), //@P11
        final(self)@ == without(old(self)@, n__day()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_year
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__day(), seq![DataS::Utf8(year.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_year
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__day()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::isrc
    ensures
        oview(r) == first(strings_of(self@, n_isrc())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_isrc
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_isrc())), //@P11
        final(self)@ == without(old(self)@, n_isrc()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_isrc
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_isrc(), seq![DataS::Utf8(isrc.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_isrc
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_isrc()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::album_artists
    ensures
        views(r@) == strings_of(self@, n_aART()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::album_artist
    ensures
        oview(r) == first(strings_of(self@, n_aART())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_album_artists
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n_aART()), //@P11
        final(self)@ == without(old(self)@, n_aART()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_album_artist
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_aART())), //@P11
        final(self)@ == without(old(self)@, n_aART()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_album_artists
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_aART(), utf8s(views(album_artists@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(album_artists@); }
=== fn tag::Tag::set_album_artist
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_aART(), seq![DataS::Utf8(album_artist.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_album_artists
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_aART(), data_of(old(self)@, n_aART()) + utf8s(views(album_artists@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(album_artists@); }
=== fn tag::Tag::add_album_artist
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_aART(), data_of(old(self)@, n_aART()).push(DataS::Utf8(album_artist.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_album_artists
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_aART()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::artists
    ensures
        views(r@) == strings_of(self@, n__ART()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::artist
    ensures
        oview(r) == first(strings_of(self@, n__ART())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_artists
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n__ART()), //@P11
        final(self)@ == without(old(self)@, n__ART()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_artist
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__ART())), //@P11
        final(self)@ == without(old(self)@, n__ART()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_artists
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__ART(), utf8s(views(artists@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(artists@); }
=== fn tag::Tag::set_artist
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__ART(), seq![DataS::Utf8(artist.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_artists
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__ART(), data_of(old(self)@, n__ART()) + utf8s(views(artists@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(artists@); }
=== fn tag::Tag::add_artist
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__ART(), data_of(old(self)@, n__ART()).push(DataS::Utf8(artist.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_artists
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__ART()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::categories
    ensures
        views(r@) == strings_of(self@, n_catg()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::category
    ensures
        oview(r) == first(strings_of(self@, n_catg())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_categories
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n_catg()), //@P11
        final(self)@ == without(old(self)@, n_catg()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_category
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_catg())), //@P11
        final(self)@ == without(old(self)@, n_catg()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_categories
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_catg(), utf8s(views(categories@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(categories@); }
=== fn tag::Tag::set_category
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_catg(), seq![DataS::Utf8(category.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_categories
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_catg(), data_of(old(self)@, n_catg()) + utf8s(views(categories@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(categories@); }
=== fn tag::Tag::add_category
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_catg(), data_of(old(self)@, n_catg()).push(DataS::Utf8(category.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_categories
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_catg()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::comments
    ensures
        views(r@) == strings_of(self@, n__cmt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::comment
    ensures
        oview(r) == first(strings_of(self@, n__cmt())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_comments
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n__cmt()), //@P11
        final(self)@ == without(old(self)@, n__cmt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_comment
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__cmt())), //@P11
        final(self)@ == without(old(self)@, n__cmt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_comments
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__cmt(), utf8s(views(comments@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(comments@); }
=== fn tag::Tag::set_comment
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__cmt(), seq![DataS::Utf8(comment.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_comments
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__cmt(), data_of(old(self)@, n__cmt()) + utf8s(views(comments@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(comments@); }
=== fn tag::Tag::add_comment
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__cmt(), data_of(old(self)@, n__cmt()).push(DataS::Utf8(comment.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_comments
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__cmt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::composers
    ensures
        views(r@) == strings_of(self@, n__wrt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::composer
    ensures
        oview(r) == first(strings_of(self@, n__wrt())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_composers
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n__wrt()), //@P11
        final(self)@ == without(old(self)@, n__wrt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_composer
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__wrt())), //@P11
        final(self)@ == without(old(self)@, n__wrt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_composers
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__wrt(), utf8s(views(composers@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(composers@); }
=== fn tag::Tag::set_composer
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__wrt(), seq![DataS::Utf8(composer.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_composers
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__wrt(), data_of(old(self)@, n__wrt()) + utf8s(views(composers@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(composers@); }
=== fn tag::Tag::add_composer
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__wrt(), data_of(old(self)@, n__wrt()).push(DataS::Utf8(composer.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_composers
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__wrt()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::custom_genres
    ensures
        views(r@) == strings_of(self@, n__gen()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::custom_genre
    ensures
        oview(r) == first(strings_of(self@, n__gen())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_custom_genres
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n__gen()), //@P11
        final(self)@ == without(old(self)@, n__gen()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_custom_genre
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__gen())), //@P11
        final(self)@ == without(old(self)@, n__gen()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_custom_genres
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__gen(), utf8s(views(custom_genres@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(custom_genres@); }
=== fn tag::Tag::set_custom_genre
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__gen(), seq![DataS::Utf8(custom_genre.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_custom_genres
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__gen(), data_of(old(self)@, n__gen()) + utf8s(views(custom_genres@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(custom_genres@); }
=== fn tag::Tag::add_custom_genre
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__gen(), data_of(old(self)@, n__gen()).push(DataS::Utf8(custom_genre.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_custom_genres
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__gen()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::descriptions
    ensures
        views(r@) == strings_of(self@, n_desc()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::description
    ensures
        oview(r) == first(strings_of(self@, n_desc())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_descriptions
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n_desc()), //@P11
        final(self)@ == without(old(self)@, n_desc()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_description
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_desc())), //@P11
        final(self)@ == without(old(self)@, n_desc()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_descriptions
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_desc(), utf8s(views(descriptions@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(descriptions@); }
=== fn tag::Tag::set_description
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_desc(), seq![DataS::Utf8(description.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_descriptions
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_desc(), data_of(old(self)@, n_desc()) + utf8s(views(descriptions@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(descriptions@); }
=== fn tag::Tag::add_description
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_desc(), data_of(old(self)@, n_desc()).push(DataS::Utf8(description.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_descriptions
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_desc()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::groupings
    ensures
        views(r@) == strings_of(self@, n__grp()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::grouping
    ensures
        oview(r) == first(strings_of(self@, n__grp())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_groupings
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n__grp()), //@P11
        final(self)@ == without(old(self)@, n__grp()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_grouping
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n__grp())), //@P11
        final(self)@ == without(old(self)@, n__grp()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_groupings
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__grp(), utf8s(views(groupings@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(groupings@); }
=== fn tag::Tag::set_grouping
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__grp(), seq![DataS::Utf8(grouping.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_groupings
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n__grp(), data_of(old(self)@, n__grp()) + utf8s(views(groupings@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(groupings@); }
=== fn tag::Tag::add_grouping
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__grp(), data_of(old(self)@, n__grp()).push(DataS::Utf8(grouping.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_groupings
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__grp()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::keywords
    ensures
        views(r@) == strings_of(self@, n_keyw()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::keyword
    ensures
        oview(r) == first(strings_of(self@, n_keyw())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_keywords
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n_keyw()), //@P11
        final(self)@ == without(old(self)@, n_keyw()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_keyword
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_keyw())), //@P11
        final(self)@ == without(old(self)@, n_keyw()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_keywords
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_keyw(), utf8s(views(keywords@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(keywords@); }
=== fn tag::Tag::set_keyword
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_keyw(), seq![DataS::Utf8(keyword.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_keywords
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_keyw(), data_of(old(self)@, n_keyw()) + utf8s(views(keywords@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(keywords@); }
=== fn tag::Tag::add_keyword
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_keyw(), data_of(old(self)@, n_keyw()).push(DataS::Utf8(keyword.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_keywords
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_keyw()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::lyricists
    ensures
        views(r@) == strings_of(self@, n_lyricist()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::lyricist
    ensures
        oview(r) == first(strings_of(self@, n_lyricist())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_lyricists
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == strings_of(old(self)@, n_lyricist()), //@P11
        final(self)@ == without(old(self)@, n_lyricist()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_lyricist
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(strings_of(old(self)@, n_lyricist())), //@P11
        final(self)@ == without(old(self)@, n_lyricist()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_lyricists
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_lyricist(), utf8s(views(lyricists@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(lyricists@); }
=== fn tag::Tag::set_lyricist
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_lyricist(), seq![DataS::Utf8(lyricist.into_view())]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_lyricists
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_lyricist(), data_of(old(self)@, n_lyricist()) + utf8s(views(lyricists@)))), //@P11
--- closure 0 String -> (x: Data)
    ensures x@ == DataS::Utf8(__c0@)
--- at start
    proof { lemma_names(); lemma_utf8s(lyricists@); }
=== fn tag::Tag::add_lyricist
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_lyricist(), data_of(old(self)@, n_lyricist()).push(DataS::Utf8(lyricist.into_view()))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_lyricists
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_lyricist()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::compilation
    ensures
        r == (bytes_of(self@, n_cpil()).len() > 0 && bytes_of(self@, n_cpil())[0].len() > 0 && bytes_of(self@, n_cpil())[0][0] == 1), //@P11
--- closure 0 &u8 -> (x: bool)
    ensures x == (*__c0 == 1)
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_compilation
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_cpil(), seq![DataS::BeSigned(seq![1u8])]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_compilation
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_cpil()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::gapless_playback
    ensures
        r == (bytes_of(self@, n_pgap()).len() > 0 && bytes_of(self@, n_pgap())[0].len() > 0 && bytes_of(self@, n_pgap())[0][0] == 1), //@P11
--- closure 0 &u8 -> (x: bool)
    ensures x == (*__c0 == 1)
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_gapless_playback
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_pgap(), seq![DataS::BeSigned(seq![1u8])]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_gapless_playback
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_pgap()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::show_movement
    ensures
        r == (bytes_of(self@, n_shwm()).len() > 0 && bytes_of(self@, n_shwm())[0].len() > 0 && bytes_of(self@, n_shwm())[0][0] == 1), //@P11
--- closure 0 &u8 -> (x: bool)
    ensures x == (*__c0 == 1)
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_show_movement
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_shwm(), seq![DataS::BeSigned(seq![1u8])]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_show_movement
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_shwm()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::bpm
    ensures
        r == int16_at(first(bytes_of(self@, n_tmpo())), 0), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_bpm
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_tmpo(), seq![DataS::BeSigned(to16(bpm as int))]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_bpm
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_tmpo()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::movement_count
    ensures
        r == int16_at(first(bytes_of(self@, n__mvc())), 0), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_movement_count
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__mvc(), seq![DataS::BeSigned(to16(movement_count as int))]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_movement_count
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__mvc()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::movement_index
    ensures
        r == int16_at(first(bytes_of(self@, n__mvi())), 0), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_movement_index
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n__mvi(), seq![DataS::BeSigned(to16(movement_index as int))]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_movement_index
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n__mvi()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::tv_episode
    ensures
        r == int32_at(first(bytes_of(self@, n_tves())), 0), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_tv_episode
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_tves(), seq![DataS::BeSigned(to32(tv_episode as int))]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_tv_episode
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_tves()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::tv_season
    ensures
        r == int32_at(first(bytes_of(self@, n_tvsn())), 0), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_tv_season
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_tvsn(), seq![DataS::BeSigned(to32(tv_season as int))]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_tv_season
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_tvsn()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::artworks
    ensures
        views(r@) == images_of(self@, n_covr()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::artwork
    ensures
        oview(r) == first(images_of(self@, n_covr())), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_artworks
    ensures
        final(self).rest() == old(self).rest(),
        views(r@) == images_of(old(self)@, n_covr()), //@P11
        final(self)@ == without(old(self)@, n_covr()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::take_artwork
    ensures
        final(self).rest() == old(self).rest(),
        oview(r) == first(images_of(old(self)@, n_covr())), //@P11
        final(self)@ == without(old(self)@, n_covr()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_artwork
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_covr(), seq![img_data((image.fmt, image.data.into_view()))]), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_artworks
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_covr(), imgs(views(images@)))), //@P11
--- at start
    proof { lemma_names(); lemma_imgs(images@); }
=== fn tag::Tag::add_artwork
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_covr(), data_of(old(self)@, n_covr()).push(img_data((image.fmt, image.data.into_view())))), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::add_artworks
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == nonempty(put(old(self)@, n_covr(), data_of(old(self)@, n_covr()) + imgs(views(images@)))), //@P11
--- at start
    proof { lemma_names(); lemma_imgs(images@); }
=== fn tag::Tag::remove_artworks
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_covr()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::media_type
    ensures
        r == (match first(bytes_of(self@, n_stik())) { Some(b) => if b.len() > 0 { media_of(b[0] as int) } else { None }, None => None }), //@P11 //@P14
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_media_type
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_stik(), seq![DataS::Reserved(seq![media_code(media_type) as u8])]), //@P11 //@P14
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_media_type
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_stik()), //@P11
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::advisory_rating
    ensures
        r == (match first(bytes_of(self@, n_rtng())) { Some(b) => if b.len() > 0 { Some(rating_of(b[0] as int)) } else { None }, None => None }), //@P11 //@P14
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::set_advisory_rating
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == put(old(self)@, n_rtng(), seq![DataS::Reserved(seq![rating_code(rating) as u8])]), //@P11 //@P14
--- at start
    proof { lemma_names();  }
=== fn tag::Tag::remove_advisory_rating
    ensures
        final(self).rest() == old(self).rest(),
        final(self)@ == erase(old(self)@, n_rtng()), //@P11
--- at start
    proof { lemma_names();  }
