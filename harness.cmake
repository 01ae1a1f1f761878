# Injected into the repository's own build (out of tree) through
# CMAKE_PROJECT_splintermail_INCLUDE: adds the model-checking harnesses as
# targets which link the repository's libraries.
set(VERIF_DIR "${CMAKE_CURRENT_LIST_DIR}")

function(mc_harness name)
    cmake_parse_arguments(MCH "" "" "DEPS;SRCS;LINK;WRAP;DEFS" "${ARGN}")
    foreach(dep ${MCH_DEPS})
        if(NOT TARGET "${dep}")
            message(STATUS "harness ${name}: no target ${dep}, skipped")
            return()
        endif()
    endforeach()
    set(srcs "${VERIF_DIR}/harness/${name}.c" "${VERIF_DIR}/mc/mc.c")
    foreach(s ${MCH_SRCS})
        list(APPEND srcs "${s}")
    endforeach()
    add_executable("${name}" EXCLUDE_FROM_ALL ${srcs})
    target_include_directories("${name}" PRIVATE "${VERIF_DIR}" "${PROJECT_SOURCE_DIR}" "${PROJECT_BINARY_DIR}")
    target_compile_options("${name}" PRIVATE -O2 -g -Wall -Wno-missing-field-initializers -Wno-comment)
    target_compile_definitions("${name}" PRIVATE "FILE_BASENAME=\"${name}\"" ${MCH_DEFS})
    if(NOT DISABLE_ASAN)
        target_compile_options("${name}" PRIVATE -fsanitize=address -fno-omit-frame-pointer)
        target_link_libraries("${name}" PRIVATE -fsanitize=address)
    endif()
    foreach(w ${MCH_WRAP})
        target_link_options("${name}" PRIVATE "-Wl,--wrap=${w}")
    endforeach()
    target_link_libraries("${name}" PRIVATE ${MCH_DEPS} ${MCH_LINK})
endfunction()

function(mc_all_harnesses)
    include("${VERIF_DIR}/harness/targets.cmake")
endfunction()
cmake_language(DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL mc_all_harnesses)
