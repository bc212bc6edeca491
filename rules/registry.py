"""Type names of the entity classes and filth values of the enemies (the documented game data)."""

REGISTRY_NAMES = {
    "entity_emitter": "Emitter",
    "check_point": "CheckPoint",
    "level_end_prox": "EndZone",
    "base_trigger": "Trigger",
    "fog_trigger": "FogTrigger",
    "ambience_trigger": "AmbienceTrigger",
    "music_trigger": "MusicTrigger",
    "special_trigger": "SpecialTrigger",
    "text_trigger": "TextTrigger",
    "kill_box": "DeathZone",
    "AI_controller": "AIController",
    "camera_node": "CameraNode",
    "level_end": "LevelEnd",
    "score_book": "ScoreBook",
    "level_door": "LevelDoor",
    "giga_gate": "RedKeyDoor",
    "enemy_tutorial_square": "EnemyLightPrism",
    "enemy_tutorial_hexagon": "EnemyHeavyPrism",
    "enemy_slime_beast": "EnemySlimeBeast",
    "enemy_slime_barrel": "EnemySlimeBarrel",
    "enemy_spring_ball": "EnemySpringBall",
    "enemy_slime_ball": "EnemySlimeBall",
    "enemy_trash_tire": "EnemyTrashTire",
    "enemy_trash_beast": "EnemyTrashBeast",
    "enemy_trash_can": "EnemyTrashCan",
    "enemy_trash_ball": "EnemyTrashBall",
    "enemy_bear": "EnemyBear",
    "enemy_stoneboss": "EnemyTotemLarge",
    "enemy_stonebro": "EnemyTotemSmall",
    "enemy_porcupine": "EnemyPorcupine",
    "enemy_wolf": "EnemyWolf",
    "enemy_critter": "EnemyTurkey",
    "enemy_flag": "EnemyFlag",
    "enemy_scrolls": "EnemyScroll",
    "enemy_treasure": "EnemyTreasure",
    "enemy_chest_treasure": "EnemyChestTreasure",
    "enemy_chest_scrolls": "EnemyChestScrolls",
    "enemy_butler": "EnemyButler",
    "enemy_maid": "EnemyMaid",
    "enemy_knight": "EnemyKnight",
    "enemy_gargoyle_big": "EnemyGargoyleBig",
    "enemy_gargoyle_small": "EnemyGargoyleSmall",
    "enemy_book": "EnemyBook",
    "enemy_hawk": "EnemyHawk",
    "enemy_key": "EnemyKey",
    "enemy_door": "EnemyDoor",
    "hittable_apple": "Apple",
    "dust_man": "Dustman",
    "dust_girl": "Dustgirl",
    "dust_kid": "Dustkid",
    "dust_worth": "Dustworth",
    "dust_wraith": "Dustwraith",
    "leaf_sprite": "Leafsprite",
    "trash_king": "Trashking",
    "slime_boss": "Slimeboss",
    "custom_score_book": "CustomScoreBook",
    "z_string_list": "StringList",
}

# filth totals of the enemies; every other entity counts nothing
FILTH = {
    "enemy_tutorial_square": 1,
    "enemy_tutorial_hexagon": 1,
    "enemy_slime_beast": 9,
    "enemy_slime_barrel": 3,
    "enemy_spring_ball": 5,
    "enemy_slime_ball": 3,
    "enemy_trash_tire": 3,
    "enemy_trash_beast": 9,
    "enemy_trash_can": 9,
    "enemy_trash_ball": 3,
    "enemy_bear": 9,
    "enemy_stoneboss": 12,
    "enemy_stonebro": 3,
    "enemy_porcupine": 1,
    "enemy_wolf": 5,
    "enemy_critter": 3,
    "enemy_flag": 5,
    "enemy_scrolls": 1,
    "enemy_treasure": 1,
    "enemy_chest_treasure": 9,
    "enemy_chest_scrolls": 9,
    "enemy_butler": 1,
    "enemy_maid": 1,
    "enemy_knight": 9,
    "enemy_gargoyle_big": 5,
    "enemy_gargoyle_small": 3,
    "enemy_book": 3,
    "enemy_hawk": 3,
    "enemy_key": 1,
    "enemy_door": 0,
}
